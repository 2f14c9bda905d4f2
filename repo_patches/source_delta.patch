From 42bc674f227dbe7ee2d068d948d3361cdf6c548b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:15 +0000
Subject: [PATCH 01/59] fix: decode QPACK prefix integers without consuming
 incomplete input or overflowing

The decoder consumed the sequence itself instead of its lookahead, so an
incomplete integer lost the bytes it had read. Continuation bytes were
accumulated in 32 bits, which gave wrong values from 2^32 and an undefined
shift from the sixth continuation byte on.
---
 bnl/http3/src/codec/qpack/prefix_int/decode.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/bnl/http3/src/codec/qpack/prefix_int/decode.cpp b/bnl/http3/src/codec/qpack/prefix_int/decode.cpp
index 9fa5498..54b45e0 100644
--- a/bnl/http3/src/codec/qpack/prefix_int/decode.cpp
+++ b/bnl/http3/src/codec/qpack/prefix_int/decode.cpp
@@ -26,7 +26,7 @@ decode(Sequence &encoded, uint8_t prefix) noexcept
 {
   typename Sequence::lookahead_type lookahead(encoded);
 
-  uint64_t result = BNL_TRY(uint8_decode(encoded));
+  uint64_t result = BNL_TRY(uint8_decode(lookahead));
 
   uint8_t prefix_max = static_cast<uint8_t>((1U << prefix) - 1);
   result &= prefix_max;
@@ -35,8 +35,17 @@ decode(Sequence &encoded, uint8_t prefix) noexcept
     uint64_t offset = 0;
     uint8_t byte = 0;
     do {
-      byte = BNL_TRY(uint8_decode(encoded));
-      result += (byte & 127U) * (1U << offset);
+      byte = BNL_TRY(uint8_decode(lookahead));
+
+      uint64_t bits = byte & 127U;
+
+      // Integers that do not fit in 64 bits are an error.
+      if (offset > 63 || (bits << offset) >> offset != bits ||
+          (bits << offset) > UINT64_MAX - result) {
+        return error::qpack_decompression_failed;
+      }
+
+      result += bits << offset;
       offset += 7;
     } while ((byte & 128U) == 128);
   }
-- 
2.43.0


From 163b1109a9c41cd6a226663165e10c88ceb9f794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:15 +0000
Subject: [PATCH 02/59] fix: accept the empty huffman encoded string

---
 bnl/http3/src/codec/qpack/huffman/decode.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/qpack/huffman/decode.cpp b/bnl/http3/src/codec/qpack/huffman/decode.cpp
index b7b5d32..adeb6c9 100644
--- a/bnl/http3/src/codec/qpack/huffman/decode.cpp
+++ b/bnl/http3/src/codec/qpack/huffman/decode.cpp
@@ -43,7 +43,8 @@ decoded_size(const Lookahead &encoded, size_t encoded_size) noexcept
 
   size_t decoded_size = 0;
   uint8_t state = 0;
-  bool accept = false;
+  // The empty string is a valid encoding.
+  bool accept = true;
 
   for (size_t i = 0; i < encoded_size; i++) {
     const decoding::node &first = decoding::table[state][encoded[i] >> 4U];
-- 
2.43.0


From e7346cc1d1adf1587fb203f34d89f76431df8690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:15 +0000
Subject: [PATCH 03/59] fix: huffman encode symbols that leave a multiple of
 eight bits after the first byte

When 16 or 24 bits of a symbol remained, the code was shifted right by that
many bits instead of by 8 or 16 bits, which encoded zeros in place of the
symbol's bits.
---
 bnl/http3/src/codec/qpack/huffman/encode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/qpack/huffman/encode.cpp b/bnl/http3/src/codec/qpack/huffman/encode.cpp
index 332aecb..ae4f02a 100644
--- a/bnl/http3/src/codec/qpack/huffman/encode.cpp
+++ b/bnl/http3/src/codec/qpack/huffman/encode.cpp
@@ -76,7 +76,7 @@ symbol_encode(uint8_t *dest, size_t *rem_bits, const encoding::symbol &symbol)
     }
 
     while (num_bits > 8) {
-      *dest = static_cast<uint8_t>(code >> (num_bits - (num_bits % 8)));
+      *dest = static_cast<uint8_t>(code >> ((num_bits - 1) / 8 * 8));
 
       dest++;
       num_bits -= 8;
-- 
2.43.0


From 909150dbf7684b1defcc323a98f14a33f6e82f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:41 +0000
Subject: [PATCH 04/59] fix: initialize the first byte of prefix integers and
 literals encoded to a buffer

encode keeps the bits in front of the prefix, which were uninitialized memory
in the overloads that allocate the buffer themselves.
---
 bnl/http3/src/codec/qpack/literal/encode.cpp    | 2 ++
 bnl/http3/src/codec/qpack/prefix_int/encode.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/bnl/http3/src/codec/qpack/literal/encode.cpp b/bnl/http3/src/codec/qpack/literal/encode.cpp
index e2fbc2f..4c925e3 100644
--- a/bnl/http3/src/codec/qpack/literal/encode.cpp
+++ b/bnl/http3/src/codec/qpack/literal/encode.cpp
@@ -48,6 +48,8 @@ encode(base::string_view literal, uint8_t prefix)
   size_t encoded_size = literal::encoded_size(literal, prefix);
   base::buffer encoded(encoded_size);
 
+  // `encode` keeps the bits in front of the prefix.
+  *encoded = 0;
   encode(encoded.data(), literal, prefix);
 
   return encoded;
diff --git a/bnl/http3/src/codec/qpack/prefix_int/encode.cpp b/bnl/http3/src/codec/qpack/prefix_int/encode.cpp
index 25c0b68..518a1fc 100644
--- a/bnl/http3/src/codec/qpack/prefix_int/encode.cpp
+++ b/bnl/http3/src/codec/qpack/prefix_int/encode.cpp
@@ -61,6 +61,8 @@ encode(uint64_t value, uint8_t prefix)
   size_t encoded_size = prefix_int::encoded_size(value, prefix);
   base::buffer encoded(encoded_size);
 
+  // `encode` keeps the bits in front of the prefix.
+  *encoded = 0;
   encode(encoded.data(), value, prefix);
 
   return encoded;
-- 
2.43.0


From 78368e9ba0056ca526dc97a040f77b88e7e923a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:14 +0000
Subject: [PATCH 05/59] fix: reject QPACK static table indices that do not fit
 in a byte

The index was truncated to 8 bits, so an index of 256 or more referred to
the entry at that index modulo 256 instead of failing decompression.
---
 bnl/http3/src/codec/qpack/decode.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/bnl/http3/src/codec/qpack/decode.cpp b/bnl/http3/src/codec/qpack/decode.cpp
index c01bf84..3bff249 100644
--- a/bnl/http3/src/codec/qpack/decode.cpp
+++ b/bnl/http3/src/codec/qpack/decode.cpp
@@ -47,11 +47,13 @@ decoder::decode(Sequence &encoded)
         return error::qpack_decompression_failed;
       }
 
-      uint8_t index =
-        static_cast<uint8_t>(BNL_TRY(prefix_int::decode(lookahead, 6)));
+      uint64_t index = BNL_TRY(prefix_int::decode(lookahead, 6));
 
       bool found = false;
-      std::tie(found, header) = table::fixed::find_header_value(index);
+      if (index <= UINT8_MAX) {
+        std::tie(found, header) =
+          table::fixed::find_header_value(static_cast<uint8_t>(index));
+      }
 
       if (!found) {
         BNL_LOG_E("Indexed header field ({}) not found in static table", index);
@@ -68,12 +70,14 @@ decoder::decode(Sequence &encoded)
         return error::qpack_decompression_failed;
       }
 
-      uint8_t index =
-        static_cast<uint8_t>(BNL_TRY(prefix_int::decode(lookahead, 4)));
+      uint64_t index = BNL_TRY(prefix_int::decode(lookahead, 4));
 
       bool found = false;
       base::string name;
-      std::tie(found, name) = table::fixed::find_header_only(index);
+      if (index <= UINT8_MAX) {
+        std::tie(found, name) =
+          table::fixed::find_header_only(static_cast<uint8_t>(index));
+      }
 
       if (!found) {
         BNL_LOG_E("Header name reference ({}) not found in static table",
-- 
2.43.0


From fc760197a586d8170af7c7b0d593efb233658edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:14 +0000
Subject: [PATCH 06/59] fix: decode indexed headers that refer to static table
 entries without a value

Entries such as :authority (0) and cookie (5) have an empty value in the
static table. Indexed headers that refer to them are valid but were rejected
as a decompression failure.
---
 bnl/http3/src/codec/qpack/decode.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bnl/http3/src/codec/qpack/decode.cpp b/bnl/http3/src/codec/qpack/decode.cpp
index 3bff249..21e9e04 100644
--- a/bnl/http3/src/codec/qpack/decode.cpp
+++ b/bnl/http3/src/codec/qpack/decode.cpp
@@ -55,6 +55,14 @@ decoder::decode(Sequence &encoded)
           table::fixed::find_header_value(static_cast<uint8_t>(index));
       }
 
+      // Static table entries without a value are headers with an empty value.
+      if (!found && index <= UINT8_MAX) {
+        base::string name;
+        std::tie(found, name) =
+          table::fixed::find_header_only(static_cast<uint8_t>(index));
+        header = http3::header(std::move(name), base::string());
+      }
+
       if (!found) {
         BNL_LOG_E("Indexed header field ({}) not found in static table", index);
         return error::qpack_decompression_failed;
-- 
2.43.0


From 16dbd173efea25509aaf586b615b30b7b94244f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:34 +0000
Subject: [PATCH 07/59] fix: compare the header with the static table entry its
 hash selects

The QPACK encoder trusted the XXH64 hashes of the name and the value. A name
or value with the same hash as a static table entry (easy to construct: XXH64
is a bijection on inputs of 8 bytes) was encoded as that entry, so the peer
decoded a different header.
---
 .../src/codec/qpack/encode_generated.cpp      | 392 ++++++++++++++++++
 bnl/http3/tools/generate_qpack.py             |  23 +-
 2 files changed, 408 insertions(+), 7 deletions(-)

diff --git a/bnl/http3/src/codec/qpack/encode_generated.cpp b/bnl/http3/src/codec/qpack/encode_generated.cpp
index 5521d1a..59b8fe7 100644
--- a/bnl/http3/src/codec/qpack/encode_generated.cpp
+++ b/bnl/http3/src/codec/qpack/encode_generated.cpp
@@ -21,357 +21,749 @@ find_index(header_view header)
 
   switch (name_hash) {
     case 16895098521482341206U: // :authority
+      if (header.name() != ":authority") {
+        break;
+      }
       return { type::header_only, uint8_t(0) };
     case 11800921616074793521U: // :method
+      if (header.name() != ":method") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 1969084168692057419U: // CONNECT
+          if (header.value() != "CONNECT") {
+            break;
+          }
           return { type::header_value, uint8_t(15) };
         case 3416820684017772195U: // DELETE
+          if (header.value() != "DELETE") {
+            break;
+          }
           return { type::header_value, uint8_t(16) };
         case 3137017853320178759U: // GET
+          if (header.value() != "GET") {
+            break;
+          }
           return { type::header_value, uint8_t(17) };
         case 5077457392360958184U: // HEAD
+          if (header.value() != "HEAD") {
+            break;
+          }
           return { type::header_value, uint8_t(18) };
         case 13449464674369688059U: // OPTIONS
+          if (header.value() != "OPTIONS") {
+            break;
+          }
           return { type::header_value, uint8_t(19) };
         case 1393561109570896241U: // POST
+          if (header.value() != "POST") {
+            break;
+          }
           return { type::header_value, uint8_t(20) };
         case 8278045464579020327U: // PUT
+          if (header.value() != "PUT") {
+            break;
+          }
           return { type::header_value, uint8_t(21) };
       }
       return { type::header_only, uint8_t(15) };
     case 1432527143127418564U: // :path
+      if (header.name() != ":path") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 16761507700594825962U: // /
+          if (header.value() != "/") {
+            break;
+          }
           return { type::header_value, uint8_t(1) };
       }
       return { type::header_only, uint8_t(1) };
     case 16734001141632695329U: // :scheme
+      if (header.name() != ":scheme") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 13730016396111666430U: // http
+          if (header.value() != "http") {
+            break;
+          }
           return { type::header_value, uint8_t(22) };
         case 10742537861312705840U: // https
+          if (header.value() != "https") {
+            break;
+          }
           return { type::header_value, uint8_t(23) };
       }
       return { type::header_only, uint8_t(22) };
     case 11145724770861396798U: // :status
+      if (header.name() != ":status") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 2891813017576360282U: // 103
+          if (header.value() != "103") {
+            break;
+          }
           return { type::header_value, uint8_t(24) };
         case 2685111111418367100U: // 200
+          if (header.value() != "200") {
+            break;
+          }
           return { type::header_value, uint8_t(25) };
         case 2860949800888200221U: // 304
+          if (header.value() != "304") {
+            break;
+          }
           return { type::header_value, uint8_t(26) };
         case 5957985645556640011U: // 404
+          if (header.value() != "404") {
+            break;
+          }
           return { type::header_value, uint8_t(27) };
         case 12373623763172808772U: // 503
+          if (header.value() != "503") {
+            break;
+          }
           return { type::header_value, uint8_t(28) };
         case 6146904730557115430U: // 100
+          if (header.value() != "100") {
+            break;
+          }
           return { type::header_value, uint8_t(63) };
         case 11759795502426644276U: // 204
+          if (header.value() != "204") {
+            break;
+          }
           return { type::header_value, uint8_t(64) };
         case 17033585193496081404U: // 206
+          if (header.value() != "206") {
+            break;
+          }
           return { type::header_value, uint8_t(65) };
         case 1337354901647857481U: // 302
+          if (header.value() != "302") {
+            break;
+          }
           return { type::header_value, uint8_t(66) };
         case 11111781720710347155U: // 400
+          if (header.value() != "400") {
+            break;
+          }
           return { type::header_value, uint8_t(67) };
         case 14993518005534636743U: // 403
+          if (header.value() != "403") {
+            break;
+          }
           return { type::header_value, uint8_t(68) };
         case 1128097706726417269U: // 421
+          if (header.value() != "421") {
+            break;
+          }
           return { type::header_value, uint8_t(69) };
         case 17924379407345689140U: // 425
+          if (header.value() != "425") {
+            break;
+          }
           return { type::header_value, uint8_t(70) };
         case 12667669577372699657U: // 500
+          if (header.value() != "500") {
+            break;
+          }
           return { type::header_value, uint8_t(71) };
       }
       return { type::header_only, uint8_t(24) };
     case 14776963886974432617U: // accept
+      if (header.name() != "accept") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 285960807216420690U: // */*
+          if (header.value() != "*/*") {
+            break;
+          }
           return { type::header_value, uint8_t(29) };
         case 6373961066247414572U: // application/dns-message
+          if (header.value() != "application/dns-message") {
+            break;
+          }
           return { type::header_value, uint8_t(30) };
       }
       return { type::header_only, uint8_t(29) };
     case 14455144075924042224U: // accept-encoding
+      if (header.name() != "accept-encoding") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 9032900040511447184U: // gzip, deflate, br
+          if (header.value() != "gzip, deflate, br") {
+            break;
+          }
           return { type::header_value, uint8_t(31) };
       }
       return { type::header_only, uint8_t(31) };
     case 12586352021634702904U: // accept-language
+      if (header.name() != "accept-language") {
+        break;
+      }
       return { type::header_only, uint8_t(72) };
     case 14590555536192441974U: // accept-ranges
+      if (header.name() != "accept-ranges") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 3279652670845457604U: // bytes
+          if (header.value() != "bytes") {
+            break;
+          }
           return { type::header_value, uint8_t(32) };
       }
       return { type::header_only, uint8_t(32) };
     case 5881923794129529227U: // access-control-allow-credentials
+      if (header.name() != "access-control-allow-credentials") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 13702020392090633634U: // FALSE
+          if (header.value() != "FALSE") {
+            break;
+          }
           return { type::header_value, uint8_t(73) };
         case 13992295306875567947U: // TRUE
+          if (header.value() != "TRUE") {
+            break;
+          }
           return { type::header_value, uint8_t(74) };
       }
       return { type::header_only, uint8_t(73) };
     case 3800686319607884068U: // access-control-allow-headers
+      if (header.name() != "access-control-allow-headers") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 6792126209451122079U: // cache-control
+          if (header.value() != "cache-control") {
+            break;
+          }
           return { type::header_value, uint8_t(33) };
         case 3910122139284074053U: // content-type
+          if (header.value() != "content-type") {
+            break;
+          }
           return { type::header_value, uint8_t(34) };
         case 765293966243412708U: // *
+          if (header.value() != "*") {
+            break;
+          }
           return { type::header_value, uint8_t(75) };
       }
       return { type::header_only, uint8_t(33) };
     case 10756748986426057606U: // access-control-allow-methods
+      if (header.name() != "access-control-allow-methods") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 2774841317834080824U: // get
+          if (header.value() != "get") {
+            break;
+          }
           return { type::header_value, uint8_t(76) };
         case 13368036589511723433U: // get, post, options
+          if (header.value() != "get, post, options") {
+            break;
+          }
           return { type::header_value, uint8_t(77) };
         case 16398749137410613924U: // options
+          if (header.value() != "options") {
+            break;
+          }
           return { type::header_value, uint8_t(78) };
       }
       return { type::header_only, uint8_t(76) };
     case 9436417403599124064U: // access-control-allow-origin
+      if (header.name() != "access-control-allow-origin") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 765293966243412708U: // *
+          if (header.value() != "*") {
+            break;
+          }
           return { type::header_value, uint8_t(35) };
       }
       return { type::header_only, uint8_t(35) };
     case 6796384088407939286U: // access-control-expose-headers
+      if (header.name() != "access-control-expose-headers") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 17031230962583399322U: // content-length
+          if (header.value() != "content-length") {
+            break;
+          }
           return { type::header_value, uint8_t(79) };
       }
       return { type::header_only, uint8_t(79) };
     case 4242818872217734295U: // access-control-request-headers
+      if (header.name() != "access-control-request-headers") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 3910122139284074053U: // content-type
+          if (header.value() != "content-type") {
+            break;
+          }
           return { type::header_value, uint8_t(80) };
       }
       return { type::header_only, uint8_t(80) };
     case 14051338931492133901U: // access-control-request-method
+      if (header.name() != "access-control-request-method") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 2774841317834080824U: // get
+          if (header.value() != "get") {
+            break;
+          }
           return { type::header_value, uint8_t(81) };
         case 3178169103122520677U: // post
+          if (header.value() != "post") {
+            break;
+          }
           return { type::header_value, uint8_t(82) };
       }
       return { type::header_only, uint8_t(81) };
     case 5092756294692198100U: // age
+      if (header.name() != "age") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 7148434200721666028U: // 0
+          if (header.value() != "0") {
+            break;
+          }
           return { type::header_value, uint8_t(2) };
       }
       return { type::header_only, uint8_t(2) };
     case 12092656254601729054U: // alt-svc
+      if (header.name() != "alt-svc") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 9623284816163994036U: // clear
+          if (header.value() != "clear") {
+            break;
+          }
           return { type::header_value, uint8_t(83) };
       }
       return { type::header_only, uint8_t(83) };
     case 8846816503791876372U: // authorization
+      if (header.name() != "authorization") {
+        break;
+      }
       return { type::header_only, uint8_t(84) };
     case 6792126209451122079U: // cache-control
+      if (header.name() != "cache-control") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 10032073942971583664U: // max-age=0
+          if (header.value() != "max-age=0") {
+            break;
+          }
           return { type::header_value, uint8_t(36) };
         case 3044507098168884424U: // max-age=2592000
+          if (header.value() != "max-age=2592000") {
+            break;
+          }
           return { type::header_value, uint8_t(37) };
         case 441477139842840241U: // max-age=604800
+          if (header.value() != "max-age=604800") {
+            break;
+          }
           return { type::header_value, uint8_t(38) };
         case 8897988708233174624U: // no-cache
+          if (header.value() != "no-cache") {
+            break;
+          }
           return { type::header_value, uint8_t(39) };
         case 3660001317594812985U: // no-store
+          if (header.value() != "no-store") {
+            break;
+          }
           return { type::header_value, uint8_t(40) };
         case 9509473917879564042U: // public, max-age=31536000
+          if (header.value() != "public, max-age=31536000") {
+            break;
+          }
           return { type::header_value, uint8_t(41) };
       }
       return { type::header_only, uint8_t(36) };
     case 17156266451297603303U: // content-disposition
+      if (header.name() != "content-disposition") {
+        break;
+      }
       return { type::header_only, uint8_t(3) };
     case 11860813331948357247U: // content-encoding
+      if (header.name() != "content-encoding") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 12202383188974104177U: // br
+          if (header.value() != "br") {
+            break;
+          }
           return { type::header_value, uint8_t(42) };
         case 12621183860903199653U: // gzip
+          if (header.value() != "gzip") {
+            break;
+          }
           return { type::header_value, uint8_t(43) };
       }
       return { type::header_only, uint8_t(42) };
     case 17031230962583399322U: // content-length
+      if (header.name() != "content-length") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 7148434200721666028U: // 0
+          if (header.value() != "0") {
+            break;
+          }
           return { type::header_value, uint8_t(4) };
       }
       return { type::header_only, uint8_t(4) };
     case 18043880115709070015U: // content-security-policy
+      if (header.name() != "content-security-policy") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 165232284275397264U: // script-src 'none'; object-src 'none';
                                   // base-uri 'none'
+          if (header.value() !=
+              "script-src 'none'; object-src 'none'; base-uri 'none'") {
+            break;
+          }
           return { type::header_value, uint8_t(85) };
       }
       return { type::header_only, uint8_t(85) };
     case 3910122139284074053U: // content-type
+      if (header.name() != "content-type") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 6373961066247414572U: // application/dns-message
+          if (header.value() != "application/dns-message") {
+            break;
+          }
           return { type::header_value, uint8_t(44) };
         case 9423039217905102597U: // application/javascript
+          if (header.value() != "application/javascript") {
+            break;
+          }
           return { type::header_value, uint8_t(45) };
         case 116355269824119741U: // application/json
+          if (header.value() != "application/json") {
+            break;
+          }
           return { type::header_value, uint8_t(46) };
         case 15711274223642436716U: // application/x-www-form-urlencoded
+          if (header.value() != "application/x-www-form-urlencoded") {
+            break;
+          }
           return { type::header_value, uint8_t(47) };
         case 12727226202374957143U: // image/gif
+          if (header.value() != "image/gif") {
+            break;
+          }
           return { type::header_value, uint8_t(48) };
         case 12200045138720289141U: // image/jpeg
+          if (header.value() != "image/jpeg") {
+            break;
+          }
           return { type::header_value, uint8_t(49) };
         case 12092489581388341001U: // image/png
+          if (header.value() != "image/png") {
+            break;
+          }
           return { type::header_value, uint8_t(50) };
         case 6791077934204364231U: // text/css
+          if (header.value() != "text/css") {
+            break;
+          }
           return { type::header_value, uint8_t(51) };
         case 8886412932112875563U: // text/html; charset=utf-8
+          if (header.value() != "text/html; charset=utf-8") {
+            break;
+          }
           return { type::header_value, uint8_t(52) };
         case 16588200704567877914U: // text/plain
+          if (header.value() != "text/plain") {
+            break;
+          }
           return { type::header_value, uint8_t(53) };
         case 9119350762400467667U: // text/plain;charset=utf-8
+          if (header.value() != "text/plain;charset=utf-8") {
+            break;
+          }
           return { type::header_value, uint8_t(54) };
       }
       return { type::header_only, uint8_t(44) };
     case 905780767293800022U: // cookie
+      if (header.name() != "cookie") {
+        break;
+      }
       return { type::header_only, uint8_t(5) };
     case 9202271988582577219U: // date
+      if (header.name() != "date") {
+        break;
+      }
       return { type::header_only, uint8_t(6) };
     case 12326157660028381149U: // early-data
+      if (header.name() != "early-data") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 13237225503670494420U: // 1
+          if (header.value() != "1") {
+            break;
+          }
           return { type::header_value, uint8_t(86) };
       }
       return { type::header_only, uint8_t(86) };
     case 6439525432329186999U: // etag
+      if (header.name() != "etag") {
+        break;
+      }
       return { type::header_only, uint8_t(7) };
     case 9568944059520352163U: // expect-ct
+      if (header.name() != "expect-ct") {
+        break;
+      }
       return { type::header_only, uint8_t(87) };
     case 5644212460638603090U: // forwarded
+      if (header.name() != "forwarded") {
+        break;
+      }
       return { type::header_only, uint8_t(88) };
     case 12678664253902784264U: // if-modified-since
+      if (header.name() != "if-modified-since") {
+        break;
+      }
       return { type::header_only, uint8_t(8) };
     case 8836338662272140136U: // if-none-match
+      if (header.name() != "if-none-match") {
+        break;
+      }
       return { type::header_only, uint8_t(9) };
     case 10086758965902305572U: // if-range
+      if (header.name() != "if-range") {
+        break;
+      }
       return { type::header_only, uint8_t(89) };
     case 5803729767262815818U: // last-modified
+      if (header.name() != "last-modified") {
+        break;
+      }
       return { type::header_only, uint8_t(10) };
     case 17841021884467483934U: // link
+      if (header.name() != "link") {
+        break;
+      }
       return { type::header_only, uint8_t(11) };
     case 14592406158319853782U: // location
+      if (header.name() != "location") {
+        break;
+      }
       return { type::header_only, uint8_t(12) };
     case 7034821444952201446U: // origin
+      if (header.name() != "origin") {
+        break;
+      }
       return { type::header_only, uint8_t(90) };
     case 4274379369960325767U: // purpose
+      if (header.name() != "purpose") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 15048569516378897441U: // prefetch
+          if (header.value() != "prefetch") {
+            break;
+          }
           return { type::header_value, uint8_t(91) };
       }
       return { type::header_only, uint8_t(91) };
     case 12715602975004390753U: // range
+      if (header.name() != "range") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 6181996873389341388U: // bytes=0-
+          if (header.value() != "bytes=0-") {
+            break;
+          }
           return { type::header_value, uint8_t(55) };
       }
       return { type::header_only, uint8_t(55) };
     case 14154313121195327909U: // referer
+      if (header.name() != "referer") {
+        break;
+      }
       return { type::header_only, uint8_t(13) };
     case 16290507850670895904U: // server
+      if (header.name() != "server") {
+        break;
+      }
       return { type::header_only, uint8_t(92) };
     case 666465872145128107U: // set-cookie
+      if (header.name() != "set-cookie") {
+        break;
+      }
       return { type::header_only, uint8_t(14) };
     case 4179674550753269761U: // strict-transport-security
+      if (header.name() != "strict-transport-security") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 13034728143243030830U: // max-age=31536000
+          if (header.value() != "max-age=31536000") {
+            break;
+          }
           return { type::header_value, uint8_t(56) };
         case 11632417432576482556U: // max-age=31536000; includesubdomains
+          if (header.value() != "max-age=31536000; includesubdomains") {
+            break;
+          }
           return { type::header_value, uint8_t(57) };
         case 16736049223785386895U: // max-age=31536000; includesubdomains;
                                     // preload
+          if (header.value() !=
+              "max-age=31536000; includesubdomains; preload") {
+            break;
+          }
           return { type::header_value, uint8_t(58) };
       }
       return { type::header_only, uint8_t(56) };
     case 5374862646944647126U: // timing-allow-origin
+      if (header.name() != "timing-allow-origin") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 765293966243412708U: // *
+          if (header.value() != "*") {
+            break;
+          }
           return { type::header_value, uint8_t(93) };
       }
       return { type::header_only, uint8_t(93) };
     case 18069291607417813553U: // upgrade-insecure-requests
+      if (header.name() != "upgrade-insecure-requests") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 13237225503670494420U: // 1
+          if (header.value() != "1") {
+            break;
+          }
           return { type::header_value, uint8_t(94) };
       }
       return { type::header_only, uint8_t(94) };
     case 16625730634708209664U: // user-agent
+      if (header.name() != "user-agent") {
+        break;
+      }
       return { type::header_only, uint8_t(95) };
     case 8816542506507529547U: // vary
+      if (header.name() != "vary") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 14455144075924042224U: // accept-encoding
+          if (header.value() != "accept-encoding") {
+            break;
+          }
           return { type::header_value, uint8_t(59) };
         case 7034821444952201446U: // origin
+          if (header.value() != "origin") {
+            break;
+          }
           return { type::header_value, uint8_t(60) };
       }
       return { type::header_only, uint8_t(59) };
     case 6196956168349306122U: // x-content-type-options
+      if (header.name() != "x-content-type-options") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 4306527442339074562U: // nosniff
+          if (header.value() != "nosniff") {
+            break;
+          }
           return { type::header_value, uint8_t(61) };
       }
       return { type::header_only, uint8_t(61) };
     case 1042837635865018085U: // x-forwarded-for
+      if (header.name() != "x-forwarded-for") {
+        break;
+      }
       return { type::header_only, uint8_t(96) };
     case 8598773544412918900U: // x-frame-options
+      if (header.name() != "x-frame-options") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 6492545016868164575U: // deny
+          if (header.value() != "deny") {
+            break;
+          }
           return { type::header_value, uint8_t(97) };
         case 13303836962186157521U: // sameorigin
+          if (header.value() != "sameorigin") {
+            break;
+          }
           return { type::header_value, uint8_t(98) };
       }
       return { type::header_only, uint8_t(97) };
     case 15732293358711069708U: // x-xss-protection
+      if (header.name() != "x-xss-protection") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 7412498726110841680U: // 1; mode=block
+          if (header.value() != "1; mode=block") {
+            break;
+          }
           return { type::header_value, uint8_t(62) };
       }
       return { type::header_only, uint8_t(62) };
diff --git a/bnl/http3/tools/generate_qpack.py b/bnl/http3/tools/generate_qpack.py
index acc06d3..5e736b8 100644
--- a/bnl/http3/tools/generate_qpack.py
+++ b/bnl/http3/tools/generate_qpack.py
@@ -126,22 +126,31 @@ static std::pair<type, uint8_t> find_index(header_view header)
 """
 
 no_values_template = """\
-case {}U: // {}
-  return {{ type::header_only, uint8_t({}) }};\
+case {0}U: // {1}
+  if (header.name() != "{1}") {{
+    break;
+  }}
+  return {{ type::header_only, uint8_t({2}) }};\
 """
 
 values_template = """\
-case {}U: // {}
+case {0}U: // {1}
+  if (header.name() != "{1}") {{
+    break;
+  }}
   value_hash = XXH64(header.value().data(), header.value().size(), 0);
   switch(value_hash) {{
-    {}
+    {2}
   }}
-  return {{ type::header_only, uint8_t({}) }};\
+  return {{ type::header_only, uint8_t({3}) }};\
 """
 
 value_template = """\
-case {}U: // {}
-  return {{ type::header_value, uint8_t({}) }};\
+case {0}U: // {1}
+  if (header.value() != "{1}") {{
+    break;
+  }}
+  return {{ type::header_value, uint8_t({2}) }};\
 """
 
 static_table = [line.split() for line in static_table_raw.splitlines()]
-- 
2.43.0


From 9f6e64ca3b257d4c5670d618b72156906c6a28a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:34 +0000
Subject: [PATCH 08/59] fix: fail instead of asserting when a message is
 started without headers

headers::encoder::fin accepted an empty header list, after which encode sent
an empty HEADERS frame and then popped from an empty list of buffers.
---
 bnl/http3/src/codec/headers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/headers.cpp b/bnl/http3/src/codec/headers.cpp
index 4176342..a430891 100644
--- a/bnl/http3/src/codec/headers.cpp
+++ b/bnl/http3/src/codec/headers.cpp
@@ -20,7 +20,8 @@ encoder::add(header_view header)
 result<void>
 encoder::fin() noexcept
 {
-  if (state_ != state::idle) {
+  // There has to be at least one header.
+  if (state_ != state::idle || buffers_.empty()) {
     return error::internal;
   }
 
-- 
2.43.0


From 56d254374e45796e4de9958314090dd2185a60f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:34 +0000
Subject: [PATCH 09/59] fix: decode empty DATA frames

An empty DATA frame at the end of the received data was reported as
incomplete (and hence as malformed at the end of the stream), or ran into an
assertion when the buffers that followed it were empty.
---
 bnl/http3/src/codec/body.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bnl/http3/src/codec/body.cpp b/bnl/http3/src/codec/body.cpp
index 347b1df..3eaad4f 100644
--- a/bnl/http3/src/codec/body.cpp
+++ b/bnl/http3/src/codec/body.cpp
@@ -98,6 +98,12 @@ decoder::decode(Sequence &encoded)
     }
     /* FALLTHRU */
     case state::data: {
+      // DATA frames can be empty.
+      if (remaining_ == 0) {
+        state_ = state::frame;
+        return base::buffer();
+      }
+
       if (encoded.empty()) {
         return error::incomplete;
       }
-- 
2.43.0


From f5d2bce09373f22969bf2dd3899325fa9a94a33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:34 +0000
Subject: [PATCH 10/59] fix: skip the payload of unknown frames in frame::peek

frame::peek continued with the length of an unknown frame as if it were the
type of the next frame, so streams that contain unknown (e.g. reserved) frames
were rejected or misread.
---
 bnl/http3/src/codec/frame/decode.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/frame/decode.cpp b/bnl/http3/src/codec/frame/decode.cpp
index 7283b88..e1b44ef 100644
--- a/bnl/http3/src/codec/frame/decode.cpp
+++ b/bnl/http3/src/codec/frame/decode.cpp
@@ -26,8 +26,17 @@ frame::peek(const Sequence &encoded) noexcept
       case frame::type::duplicate_push:
         return static_cast<frame::type>(type);
       default:
-        continue;
+        break;
     }
+
+    // Skip unknown frames.
+    uint64_t payload_encoded_size = BNL_TRY(varint::decode(lookahead));
+
+    if (payload_encoded_size > lookahead.size()) {
+      return error::incomplete;
+    }
+
+    lookahead.consume(static_cast<size_t>(payload_encoded_size));
   }
 
   assert(false);
-- 
2.43.0


From 0a1eec7b3bc654286c2c476ef5c6044e6c85f196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:48 +0000
Subject: [PATCH 11/59] fix: report PUSH_PROMISE sizes near 2^64 as a varint
 overflow

The sum of the push id's size and the header block size wrapped around, so
frame::encode succeeded with a small, wrong length.
---
 bnl/http3/src/codec/frame/encode.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bnl/http3/src/codec/frame/encode.cpp b/bnl/http3/src/codec/frame/encode.cpp
index 3ed034c..5e78968 100644
--- a/bnl/http3/src/codec/frame/encode.cpp
+++ b/bnl/http3/src/codec/frame/encode.cpp
@@ -53,6 +53,12 @@ payload_size(const frame &frame) noexcept
     case frame::type::push_promise: {
       uint64_t push_id = frame.push_promise.push_id;
       payload_size += BNL_TRY(varint::encoded_size(push_id));
+
+      // Avoid overflow of `payload_size`.
+      if (frame.push_promise.size > varint::max) {
+        return error::varint_overflow;
+      }
+
       payload_size += frame.push_promise.size;
       break;
     }
-- 
2.43.0


From d69b2c3f26031214ae63f452b8d7158117824f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:08 +0000
Subject: [PATCH 12/59] fix: fail instead of asserting on a control stream with
 another stream type

The stream type is sent by the peer, which could abort the process (or, with
asserts disabled, have any stream treated as the control stream).
---
 bnl/http3/src/endpoint/stream/control.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bnl/http3/src/endpoint/stream/control.cpp b/bnl/http3/src/endpoint/stream/control.cpp
index c204910..2f1432d 100644
--- a/bnl/http3/src/endpoint/stream/control.cpp
+++ b/bnl/http3/src/endpoint/stream/control.cpp
@@ -68,9 +68,14 @@ receiver::process() noexcept
     // TODO: Move this out of control stream since we technically won't know its
     // the control stream until we've decoded the type.
     case state::type: {
-      uint64_t type = BNL_TRY(varint::decode(buffers_));
-      (void) type; // Silence GCC 9 Wunused-variable warning
-      assert(type == control::type);
+      base::buffers::lookahead lookahead(buffers_);
+      uint64_t type = BNL_TRY(varint::decode(lookahead));
+      if (type != control::type) {
+        BNL_LOG_E("Stream type ({}) is not the control stream type", type);
+        return error::wrong_stream;
+      }
+
+      buffers_.consume(lookahead.consumed());
       state_ = state::settings;
     }
     /* FALLTHRU */
-- 
2.43.0


From f93e1478b73225b578400406c97acc26e8c18a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:08 +0000
Subject: [PATCH 13/59] fix: end the stream when fin is called after all data
 has been sent

If the headers and all body data were sent before fin was called, send
returned an internal error from then on: the end of the stream was never sent
and requests on other streams were blocked.
---
 bnl/http3/src/endpoint/stream/request.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index 48e1b74..cbffc61 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -77,6 +77,13 @@ sender::send() noexcept
     }
 
     case state::body: {
+      // If all body data was sent before `fin` was called, there's no data left
+      // to send the end of the stream with.
+      if (body_.finished()) {
+        state_ = state::fin;
+        return quic::data{ id_, true, base::buffer() };
+      }
+
       base::buffer encoded = BNL_TRY(body_.encode());
 
       if (body_.finished()) {
-- 
2.43.0


From 94dc6e2393125313c93abe9edb1fb513deda8f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:08 +0000
Subject: [PATCH 14/59] fix: detach handles and senders that are replaced

Assigning to a handle, creating a second handle for the same stream or
assigning to a sender left the replaced object pointing to a handle or sender
that no longer pointed back, which was used after it was destroyed.
---
 bnl/http3/src/endpoint/stream/request.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index cbffc61..af36854 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -30,6 +30,10 @@ sender &
 sender::operator=(sender &&other) noexcept
 {
   if (&other != this) {
+    if (handle_ != nullptr) {
+      handle_->sender_ = nullptr;
+    }
+
     handle_ = other.handle_;
     state_ = other.state_;
     headers_ = std::move(other.headers_);
@@ -129,6 +133,11 @@ sender::handle::handle(sender *sender)
   : id_(sender->id_)
   , sender_(sender)
 {
+  // A sender only tracks a single handle so the previous handle is invalidated.
+  if (sender_->handle_ != nullptr) {
+    sender_->handle_->sender_ = nullptr;
+  }
+
   sender_->handle_ = this;
 }
 
@@ -142,6 +151,10 @@ sender::handle &
 sender::handle::operator=(sender::handle &&other) noexcept
 {
   if (&other != this) {
+    if (sender_ != nullptr) {
+      sender_->handle_ = nullptr;
+    }
+
     id_ = other.id_;
     sender_ = other.sender_;
     other.id_ = UINT64_MAX;
-- 
2.43.0


From 0e24a8d5b3c3c6f5891d9d16e085dbd81eb58d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:29 +0000
Subject: [PATCH 15/59] fix: finish messages whose end of stream follows their
 last frame

If the end of the stream was received after the last frame had been processed,
or was preceded by unknown frames, the complete message was reported as
malformed.
---
 bnl/http3/src/endpoint/stream/request.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index af36854..dc252cf 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -325,6 +325,17 @@ receiver::process() noexcept
   };
 
   if (error == error::incomplete && fin_received_) {
+    // The end of the stream can be received separately from the last frame and
+    // unknown frames, which are ignored, can follow the last frame.
+    if (state_ == receiver::state::body && !body_.in_progress()) {
+      result<frame> r = frame::decode(buffers_);
+
+      if (!r && r.error() == error::incomplete && buffers_.empty()) {
+        state_ = state::fin;
+        return event::payload::body{ id_, true, base::buffer() };
+      }
+    }
+
     return error::malformed_frame;
   }
 
-- 
2.43.0


From 2a3355f5af9f58f88a16e4d01f2c5b4d82979528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:02 +0000
Subject: [PATCH 16/59] fix: report a frame that is cut off by the end of a
 request stream as malformed

Frames other than HEADERS and DATA that were cut off by the end of the stream
were reported as incomplete forever.
---
 bnl/http3/src/endpoint/stream/request.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index dc252cf..c78af45 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -340,7 +340,14 @@ receiver::process() noexcept
   }
 
   if (error == error::delegate) {
-    frame frame = BNL_TRY(frame::decode(buffers_));
+    result<http3::frame> r = frame::decode(buffers_);
+
+    // Don't wait for the rest of a frame that was cut off.
+    if (!r && r.error() == error::incomplete && fin_received_) {
+      return error::malformed_frame;
+    }
+
+    frame frame = BNL_TRY(std::move(r));
 
     switch (frame) {
       case frame::type::headers:
-- 
2.43.0


From 3be415027feaad43e8ab7755577b59913f191768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:02 +0000
Subject: [PATCH 17/59] fix: ignore unidirectional streams in the server like
 the client does

Data on a client's unidirectional streams other than its control stream (QPACK
encoder and decoder streams, reserved stream types) was treated as a request.
---
 bnl/http3/src/server/connection.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bnl/http3/src/server/connection.cpp b/bnl/http3/src/server/connection.cpp
index d25cf9d..6bacf08 100644
--- a/bnl/http3/src/server/connection.cpp
+++ b/bnl/http3/src/server/connection.cpp
@@ -70,6 +70,11 @@ connection::recv(quic::data data)
     return control.recv(std::move(data));
   };
 
+  // TODO: Actually handle unidirectional streams.
+  if ((data.id & 0x2U) != 0) {
+    return base::success();
+  }
+
   auto match = requests_.find(data.id);
   if (match == requests_.end()) {
     server::stream::request::sender sender(data.id);
@@ -105,6 +110,11 @@ connection::process(uint64_t id)
     return event;
   }
 
+  // TODO: Actually handle unidirectional streams.
+  if ((id & 0x2U) != 0) {
+    return error::incomplete;
+  }
+
   server::stream::request::receiver &request = requests_.at(id).second;
 
   return request.process();
-- 
2.43.0


From cad74432f3c880f2ad0cc9907251abfb21e54b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:23 +0000
Subject: [PATCH 18/59] fix: keep requests that are answered before they are
 completely received

The server forgot a request as soon as its response was sent. Data that arrived
for the request afterwards was treated as a new request, and a generator that
was still in use terminated the process (std::map::at in a noexcept function).
---
 bnl/http3/src/server/connection.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/bnl/http3/src/server/connection.cpp b/bnl/http3/src/server/connection.cpp
index 6bacf08..c652456 100644
--- a/bnl/http3/src/server/connection.cpp
+++ b/bnl/http3/src/server/connection.cpp
@@ -30,7 +30,8 @@ connection::send() noexcept
 
     result<quic::event> r = request.send();
     if (r) {
-      if (request.finished()) {
+      // The rest of the request can still arrive after the response was sent.
+      if (request.finished() && entry.second.second.finished()) {
         requests_.erase(id);
       }
 
@@ -115,16 +116,28 @@ connection::process(uint64_t id)
     return error::incomplete;
   }
 
-  server::stream::request::receiver &request = requests_.at(id).second;
+  auto match = requests_.find(id);
+  if (match == requests_.end()) {
+    // We only forget requests that were received and responded to completely.
+    return event::payload::finished{ id };
+  }
+
+  server::stream::request::receiver &request = match->second.second;
 
-  return request.process();
+  event event = BNL_TRY(request.process());
+
+  if (event == event::type::finished && match->second.first.finished()) {
+    requests_.erase(match);
+  }
+
+  return event;
 }
 
 result<response::handle>
 connection::response(uint64_t id)
 {
   auto match = requests_.find(id);
-  if (match == requests_.end()) {
+  if (match == requests_.end() || match->second.first.finished()) {
     return error::stream_closed;
   }
 
-- 
2.43.0


From a28c5e5709c758a3c1bc142731e0be37ea7131d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:55 +0000
Subject: [PATCH 19/59] fix: keep sending requests that are answered before
 they are completely sent

The client forgot a request as soon as its response had finished, so the rest
of the request and the end of its stream were never sent.
---
 bnl/http3/src/client/connection.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bnl/http3/src/client/connection.cpp b/bnl/http3/src/client/connection.cpp
index 8979b03..373288c 100644
--- a/bnl/http3/src/client/connection.cpp
+++ b/bnl/http3/src/client/connection.cpp
@@ -23,6 +23,7 @@ connection::send() noexcept
   }
 
   for (auto &entry : requests_) {
+    uint64_t id = entry.first;
     client::stream::request::sender &sender = entry.second.first;
 
     if (sender.finished()) {
@@ -37,6 +38,10 @@ connection::send() noexcept
         BNL_TRY(receiver.start());
       }
 
+      if (sender.finished() && receiver.finished()) {
+        requests_.erase(id);
+      }
+
       return r;
     }
 
@@ -117,16 +122,17 @@ connection::process(uint64_t id)
   }
 
   auto match = requests_.find(id);
-  // TODO: Better error
   if (match == requests_.end()) {
-    return error::internal;
+    // We only forget requests that were sent and responded to completely.
+    return event::payload::finished{ id };
   }
 
   client::stream::request::receiver &request = match->second.second;
 
   event event = BNL_TRY(request.process());
 
-  if (event == event::type::finished) {
+  // The response can finish before the request is completely sent.
+  if (event == event::type::finished && match->second.first.finished()) {
     requests_.erase(id);
   }
 
-- 
2.43.0


From 7d2946cf829d1337a845f556d61621dae7d77447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:07 +0000
Subject: [PATCH 20/59] fix: give every error a distinct std::error_code

Errors from 2^62 on were truncated to an int, so http3::error::incomplete and
quic::error::incomplete became error code 0 (no error), and others became the
code of an unrelated error.
---
 bnl/base/src/base/system_error.cpp | 33 ++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/bnl/base/src/base/system_error.cpp b/bnl/base/src/base/system_error.cpp
index 8ea89a2..1dfbdbb 100644
--- a/bnl/base/src/base/system_error.cpp
+++ b/bnl/base/src/base/system_error.cpp
@@ -2,6 +2,31 @@
 
 namespace bnl {
 
+// Errors that are never sent to the peer start at 2^62 which does not fit in an
+// `int`. Since all other errors are positive, we map the former to the negative
+// integers so every error is represented by a different `int`.
+static constexpr uint64_t LOCAL_ERROR_BASE = 0x40ULL << 56U;
+
+template<typename Error>
+static int
+to_int(Error error) noexcept
+{
+  uint64_t value = static_cast<uint64_t>(error);
+
+  return value < LOCAL_ERROR_BASE
+           ? static_cast<int>(value)
+           : -1 - static_cast<int>(value - LOCAL_ERROR_BASE);
+}
+
+template<typename Error>
+static Error
+from_int(int code) noexcept
+{
+  return static_cast<Error>(
+    code >= 0 ? static_cast<uint64_t>(code)
+              : LOCAL_ERROR_BASE + static_cast<uint64_t>(-1 - code));
+}
+
 namespace http3 {
 
 class error_category_impl : public std::error_category {
@@ -20,7 +45,7 @@ error_category_impl::name() const noexcept
 std::string
 error_category_impl::message(int code) const noexcept
 {
-  switch (static_cast<error>(code)) {
+  switch (from_int<error>(code)) {
     case error::no_error:
       return "no error";
     case error::internal:
@@ -68,7 +93,7 @@ error_category() noexcept
 std::error_code
 make_error_code(error error) noexcept
 {
-  return { static_cast<int>(error), error_category() };
+  return { to_int(error), error_category() };
 }
 
 }
@@ -91,7 +116,7 @@ error_category_impl::name() const noexcept
 std::string
 error_category_impl::message(int code) const noexcept
 {
-  switch (static_cast<error>(code)) {
+  switch (from_int<error>(code)) {
     case error::no_error:
       return "no error";
     case error::internal:
@@ -135,7 +160,7 @@ error_category() noexcept
 std::error_code
 make_error_code(error error) noexcept
 {
-  return { static_cast<int>(error), error_category() };
+  return { to_int(error), error_category() };
 }
 
 }
-- 
2.43.0


From c439f2ab825b8d703aad134e9393cbcf04a0964b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:07 +0000
Subject: [PATCH 21/59] fix: name the QUIC error category bnl-quic

---
 bnl/base/src/base/system_error.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/base/src/base/system_error.cpp b/bnl/base/src/base/system_error.cpp
index 1dfbdbb..bee8746 100644
--- a/bnl/base/src/base/system_error.cpp
+++ b/bnl/base/src/base/system_error.cpp
@@ -110,7 +110,7 @@ public:
 const char *
 error_category_impl::name() const noexcept
 {
-  return "bnl-http3";
+  return "bnl-quic";
 }
 
 std::string
-- 
2.43.0


From d97c17862f5bca05c7ec0b5ec54c99c76eea6a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:07 +0000
Subject: [PATCH 22/59] fix: end console log messages on the stream they are
 written to

The newline of warnings and errors, which are written to stderr, was written
to stdout.
---
 bnl/log/src/console.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/log/src/console.cpp b/bnl/log/src/console.cpp
index b46f9f1..77c392c 100644
--- a/bnl/log/src/console.cpp
+++ b/bnl/log/src/console.cpp
@@ -63,7 +63,7 @@ console::log(base::log::level level,
   color = fmt::fg(fmt::color::white);
   fmt::vprint(output, color, format, args);
 
-  fmt::print("\n");
+  fmt::print(output, "\n");
 
   fflush(output);
 }
-- 
2.43.0


From 729653ab9804281885f5ac16a4c00b97f23877ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:24 +0000
Subject: [PATCH 23/59] fix: encode the last header list of a QIF file without
 a trailing empty line

qpack-interop-encode silently dropped it.
---
 bnl/http3/app/qpack/qpack-interop-encode.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bnl/http3/app/qpack/qpack-interop-encode.cpp b/bnl/http3/app/qpack/qpack-interop-encode.cpp
index b22c71c..4842127 100644
--- a/bnl/http3/app/qpack/qpack-interop-encode.cpp
+++ b/bnl/http3/app/qpack/qpack-interop-encode.cpp
@@ -149,5 +149,14 @@ main(int argc, char *argv[])
     headers.emplace_back(std::move(header));
   }
 
+  // The last header list doesn't have to be followed by an empty line.
+  if (!headers.empty()) {
+    http3::result<void> r = encode(id, headers, output);
+    if (!r) {
+      BNL_LOG_E("Error encoding headers");
+      return 1;
+    }
+  }
+
   return 0;
 }
-- 
2.43.0


From 89c1c3054f1f1b857fa2485b4ef0768c2d793c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:23 +0000
Subject: [PATCH 24/59] fix: refuse headers that are not lowercase in every
 qpack::encoder::encode overload

---
 bnl/http3/src/codec/qpack/encode.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bnl/http3/src/codec/qpack/encode.cpp b/bnl/http3/src/codec/qpack/encode.cpp
index a3dbd33..e5582e0 100644
--- a/bnl/http3/src/codec/qpack/encode.cpp
+++ b/bnl/http3/src/codec/qpack/encode.cpp
@@ -77,6 +77,11 @@ encoder::encode(uint8_t *dest, header_view header) noexcept
 {
   assert(dest != nullptr);
 
+  if (!header_is_lowercase(header)) {
+    BNL_LOG_E("Header ({}) is not lowercase", header);
+    return error::malformed_header;
+  }
+
   uint8_t *begin = dest;
 
   if (state_ == state::prefix) {
-- 
2.43.0


From be6a2ca7959d96825040ac0eb3abbceb3683463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:23 +0000
Subject: [PATCH 25/59] fix: allow empty slices of empty buffers

---
 bnl/base/src/base/buffers.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bnl/base/src/base/buffers.cpp b/bnl/base/src/base/buffers.cpp
index fc1d2f4..0105d03 100644
--- a/bnl/base/src/base/buffers.cpp
+++ b/bnl/base/src/base/buffers.cpp
@@ -59,6 +59,10 @@ buffers::slice(size_t size)
 {
   assert(size <= this->size());
 
+  if (size == 0) {
+    return buffer();
+  }
+
   auto begin = find_first_not_empty(buffers_);
   assert(begin != buffers_.end());
 
-- 
2.43.0


From 095b7d38fe1409424e367ddbb97caccd563f9449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 26/59] fix: deliver the received part of a DATA frame before
 reporting that the stream was cut off

---
 bnl/http3/src/endpoint/stream/request.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index c78af45..28411f4 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -305,15 +305,11 @@ receiver::process() noexcept
         break;
       }
 
-      bool fin = buffers_.empty() && fin_received_;
+      // If the stream ended in the middle of a DATA frame, the part of the body
+      // that was received is still delivered before the error is reported.
+      bool fin = buffers_.empty() && fin_received_ && !body_.in_progress();
 
       if (fin) {
-        // We've processed all stream data but there still frame data left to be
-        // received.
-        if (body_.in_progress()) {
-          return (error::malformed_frame);
-        }
-
         state_ = state::fin;
       }
 
-- 
2.43.0


From 694643c4babd0cea78270ef2949697343bd37adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:07 +0000
Subject: [PATCH 27/59] fix: skip trailing HEADERS as they arrive instead of
 ending the message early

The message was reported as finished as soon as the trailing HEADERS frame's
header was received, even if the rest of the frame never arrived, and whatever
arrived later was treated as part of another request.
---
 .../bnl/http3/endpoint/stream/request.hpp     |  3 +-
 bnl/http3/src/endpoint/stream/request.cpp     | 33 ++++++++++++++++---
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp b/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
index d0b8a32..24b5ff6 100644
--- a/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
+++ b/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
@@ -99,7 +99,7 @@ protected:
   const headers::decoder &headers() const noexcept;
 
 private:
-  enum class state : uint8_t { closed, headers, body, fin };
+  enum class state : uint8_t { closed, headers, body, trailers, fin };
 
   state state_ = state::closed;
   base::buffers buffers_;
@@ -107,6 +107,7 @@ private:
 
   headers::decoder headers_;
   body::decoder body_;
+  uint64_t trailers_size_ = 0;
 
   uint64_t id_;
 };
diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index 28411f4..ecacef0 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -316,6 +316,29 @@ receiver::process() noexcept
       return event::payload::body{ id_, fin, std::move(r).value() };
     }
 
+    case state::trailers: {
+      // TODO: Implement trailing HEADERS
+      size_t size = buffers_.size() < trailers_size_
+                      ? buffers_.size()
+                      : static_cast<size_t>(trailers_size_);
+      buffers_.consume(size);
+      trailers_size_ -= size;
+
+      if (trailers_size_ > 0) {
+        error = error::incomplete;
+        break;
+      }
+
+      result<frame::type> r = frame::peek(buffers_);
+      if (r && (r.value() == frame::type::headers ||
+                r.value() == frame::type::data)) {
+        return error::unexpected_frame;
+      }
+
+      error = r ? error::delegate : r.error();
+      break;
+    }
+
     case state::fin:
       return event::payload::finished{ id_ };
   };
@@ -323,7 +346,8 @@ receiver::process() noexcept
   if (error == error::incomplete && fin_received_) {
     // The end of the stream can be received separately from the last frame and
     // unknown frames, which are ignored, can follow the last frame.
-    if (state_ == receiver::state::body && !body_.in_progress()) {
+    if ((state_ == receiver::state::body && !body_.in_progress()) ||
+        (state_ == receiver::state::trailers && trailers_size_ == 0)) {
       result<frame> r = frame::decode(buffers_);
 
       if (!r && r.error() == error::incomplete && buffers_.empty()) {
@@ -347,12 +371,11 @@ receiver::process() noexcept
 
     switch (frame) {
       case frame::type::headers:
-        // TODO: Implement trailing HEADERS
         if (state_ == receiver::state::body) {
           BNL_LOG_W("Ignoring trailing headers");
-          buffers_.consume(buffers_.size());
-          state_ = state::fin;
-          return event::payload::body{ id_, true, base::buffer() };
+          trailers_size_ = frame.headers.size;
+          state_ = state::trailers;
+          return process();
         }
         break;
       case frame::type::data:
-- 
2.43.0


From 98ec5ebab385e96f0dbb2736e9b4e5cb21996aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:42 +0000
Subject: [PATCH 28/59] fix: don't keep empty fragments of a stream

---
 bnl/http3/src/endpoint/stream/control.cpp | 6 +++++-
 bnl/http3/src/endpoint/stream/request.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/bnl/http3/src/endpoint/stream/control.cpp b/bnl/http3/src/endpoint/stream/control.cpp
index 2f1432d..92c2da5 100644
--- a/bnl/http3/src/endpoint/stream/control.cpp
+++ b/bnl/http3/src/endpoint/stream/control.cpp
@@ -55,7 +55,11 @@ receiver::recv(quic::data data)
     return error::closed_critical_stream;
   }
 
-  buffers_.push(std::move(data.buffer));
+  // Empty buffers can't be consumed so they'd stay around for as long as nothing
+  // else is received.
+  if (!data.buffer.empty()) {
+    buffers_.push(std::move(data.buffer));
+  }
 
   return base::success();
 }
diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index ecacef0..d43c81e 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -263,7 +263,11 @@ receiver::recv(quic::data data)
   }
 
   fin_received_ = data.fin;
-  buffers_.push(std::move(data.buffer));
+  // Empty buffers can't be consumed so they'd stay around for as long as nothing
+  // else is received.
+  if (!data.buffer.empty()) {
+    buffers_.push(std::move(data.buffer));
+  }
 
   return base::success();
 }
-- 
2.43.0


From 14b295bbb7ac25a02182c6fb917b7237e7bb0fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:16 +0000
Subject: [PATCH 29/59] fix: discard complete unknown frames on request streams
 as they arrive

---
 bnl/http3/src/endpoint/stream/request.cpp | 28 +++++++++++++++--------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index d43c81e..6d8094a 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -347,20 +347,28 @@ receiver::process() noexcept
       return event::payload::finished{ id_ };
   };
 
-  if (error == error::incomplete && fin_received_) {
-    // The end of the stream can be received separately from the last frame and
-    // unknown frames, which are ignored, can follow the last frame.
-    if ((state_ == receiver::state::body && !body_.in_progress()) ||
-        (state_ == receiver::state::trailers && trailers_size_ == 0)) {
+  if (error == error::incomplete) {
+    bool boundary =
+      (state_ == receiver::state::headers && !headers_.started()) ||
+      (state_ == receiver::state::body && !body_.in_progress()) ||
+      (state_ == receiver::state::trailers && trailers_size_ == 0);
+
+    // Unknown frames are ignored so the ones that were received completely don't
+    // have to be kept until the next known frame arrives.
+    bool end = false;
+    if (boundary) {
       result<frame> r = frame::decode(buffers_);
+      end = !r && r.error() == error::incomplete && buffers_.empty();
+    }
 
-      if (!r && r.error() == error::incomplete && buffers_.empty()) {
-        state_ = state::fin;
-        return event::payload::body{ id_, true, base::buffer() };
-      }
+    // The end of the stream can be received separately from the last frame and
+    // unknown frames, which are ignored, can follow the last frame.
+    if (fin_received_ && end && headers_.finished()) {
+      state_ = state::fin;
+      return event::payload::body{ id_, true, base::buffer() };
     }
 
-    return error::malformed_frame;
+    return fin_received_ ? error::malformed_frame : error::incomplete;
   }
 
   if (error == error::delegate) {
-- 
2.43.0


From 0b8a765d5b6d6163d37137a2015898deb1c17b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:01 +0000
Subject: [PATCH 30/59] fix: make the ChaCha20 header protection mask from the
 key stream alone

---
 bnl/quic/src/crypto/boringssl.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bnl/quic/src/crypto/boringssl.cpp b/bnl/quic/src/crypto/boringssl.cpp
index 0531ec5..a6208d7 100644
--- a/bnl/quic/src/crypto/boringssl.cpp
+++ b/bnl/quic/src/crypto/boringssl.cpp
@@ -6,6 +6,8 @@
 #include <openssl/evp.h>
 #include <openssl/hkdf.h>
 
+#include <array>
+
 namespace bnl {
 namespace quic {
 
@@ -196,9 +198,12 @@ crypto::hp_mask(base::buffer_view_mut dest,
       nonce[1] = uint32_LE(sample.data() + 8);
       nonce[2] = uint32_LE(sample.data() + 12);
 
+      // The mask is the raw ChaCha20 key stream (an encryption of zeros).
+      static const std::array<uint8_t, 16> ZEROS = {};
+
       CRYPTO_chacha_20(dest.data(),
-                       sample.data(),
-                       sample.size(),
+                       ZEROS.data(),
+                       ZEROS.size(),
                        key.data(),
                        reinterpret_cast<uint8_t *>(nonce),
                        counter);
-- 
2.43.0


From 9dd86e37f02e5001bcf44ed79c12e935f845cb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:01 +0000
Subject: [PATCH 31/59] fix: don't encrypt past the end of a destination that
 is too small

---
 bnl/quic/src/crypto/boringssl.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bnl/quic/src/crypto/boringssl.cpp b/bnl/quic/src/crypto/boringssl.cpp
index a6208d7..335f636 100644
--- a/bnl/quic/src/crypto/boringssl.cpp
+++ b/bnl/quic/src/crypto/boringssl.cpp
@@ -96,13 +96,12 @@ crypto::encrypt(base::buffer_view_mut dest,
     return error::crypto;
   }
 
-  size_t max_size = plaintext.size() + EVP_AEAD_max_overhead(evp_aead(aead_));
-  size_t out_size = dest.size();
+  size_t out_size = 0;
 
   int rv = EVP_AEAD_CTX_seal(context,
                              dest.data(),
                              &out_size,
-                             max_size,
+                             dest.size(),
                              nonce.data(),
                              nonce.size(),
                              plaintext.data(),
@@ -116,7 +115,7 @@ crypto::encrypt(base::buffer_view_mut dest,
     return error::crypto;
   }
 
-  assert(out_size == max_size);
+  assert(out_size == plaintext.size() + aead_overhead());
 
   return base::success();
 }
-- 
2.43.0


From 556d7e4d4c7a9cc6b43abf3216252d9110f78913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:01 +0000
Subject: [PATCH 32/59] fix: encode HKDF label lengths of 255 and more as
 16-bit integers

---
 bnl/quic/src/crypto.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bnl/quic/src/crypto.cpp b/bnl/quic/src/crypto.cpp
index 6cf924a..dbfdd2a 100644
--- a/bnl/quic/src/crypto.cpp
+++ b/bnl/quic/src/crypto.cpp
@@ -155,8 +155,8 @@ crypto::hkdf_expand_label(base::buffer_view secret,
   // HkdfLabel
 
   // length (uint16_t)
-  *it++ = static_cast<uint8_t>(size / UINT8_MAX); // MSB
-  *it++ = static_cast<uint8_t>(size % UINT8_MAX); // LSB
+  *it++ = static_cast<uint8_t>(size / 256); // MSB
+  *it++ = static_cast<uint8_t>(size % 256); // LSB
 
   // "tls 13 " + Label
   static const base::buffer_view LABEL = "tls13 ";
-- 
2.43.0


From a2254750d53ceb6cc747a06ca0ebf6a2008911c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:48 +0000
Subject: [PATCH 33/59] fix: keep stream data in place until it is acknowledged

---
 bnl/quic/include/bnl/quic/client/stream.hpp | 14 +++++--
 bnl/quic/src/client/stream.cpp              | 43 ++++++++++++++++-----
 2 files changed, 44 insertions(+), 13 deletions(-)

diff --git a/bnl/quic/include/bnl/quic/client/stream.hpp b/bnl/quic/include/bnl/quic/client/stream.hpp
index c5ef5e8..e9ebcb6 100644
--- a/bnl/quic/include/bnl/quic/client/stream.hpp
+++ b/bnl/quic/include/bnl/quic/client/stream.hpp
@@ -1,9 +1,11 @@
 #pragma once
 
-#include <bnl/base/buffers.hpp>
+#include <bnl/base/buffer.hpp>
 #include <bnl/quic/export.hpp>
 #include <bnl/quic/result.hpp>
 
+#include <list>
+
 namespace bnl {
 namespace quic {
 namespace client {
@@ -27,8 +29,14 @@ public:
   bool opened() const noexcept;
 
 private:
-  base::buffers buffers_;
-  base::buffers keepalive_;
+  // ngtcp2 refers to the data that was passed to it until that data is
+  // acknowledged so buffers (small ones contain their data) are not moved: they
+  // go from `buffers_` to `keepalive_` by relinking their list node.
+  std::list<base::buffer> buffers_;
+  std::list<base::buffer> keepalive_;
+  // The number of bytes of the first buffer that are already sent.
+  size_t sent_ = 0;
+
   bool fin_ = false;
   bool opened_ = false;
 
diff --git a/bnl/quic/src/client/stream.cpp b/bnl/quic/src/client/stream.cpp
index 81d424f..f28c857 100644
--- a/bnl/quic/src/client/stream.cpp
+++ b/bnl/quic/src/client/stream.cpp
@@ -3,6 +3,8 @@
 #include <bnl/base/log.hpp>
 #include <bnl/quic/client/ngtcp2/connection.hpp>
 
+#include <algorithm>
+
 namespace bnl {
 namespace quic {
 namespace client {
@@ -31,13 +33,14 @@ stream::send()
   }
 
   const base::buffer &first = buffers_.front();
-  bool fin = fin_ && (first == buffers_.back());
+  base::buffer_view data(first.data() + sent_, first.size() - sent_);
+  bool fin = fin_ && buffers_.size() == 1;
 
   base::buffer packet;
   size_t stream_bytes_written = 0;
 
   result<std::pair<base::buffer, size_t>> r =
-    ngtcp2_->write_stream(id_, first, fin);
+    ngtcp2_->write_stream(id_, data, fin);
 
   if (!r) {
     if (r.error() == error::stream_id_blocked ||
@@ -50,8 +53,12 @@ stream::send()
 
   std::tie(packet, stream_bytes_written) = std::move(r).value();
 
-  base::buffer sent = buffers_.slice(stream_bytes_written);
-  keepalive_.push(std::move(sent));
+  sent_ += stream_bytes_written;
+
+  if (sent_ == first.size()) {
+    keepalive_.splice(keepalive_.end(), buffers_, buffers_.begin());
+    sent_ = 0;
+  }
 
   return packet;
 }
@@ -61,7 +68,9 @@ stream::add(base::buffer buffer)
 {
   assert(!fin_);
 
-  buffers_.push(std::move(buffer));
+  if (!buffer.empty()) {
+    buffers_.emplace_back(std::move(buffer));
+  }
 
   return base::success();
 }
@@ -79,16 +88,30 @@ stream::fin()
 result<void>
 stream::ack(size_t size)
 {
-  if (size > keepalive_.size()) {
+  while (size > 0 && !keepalive_.empty()) {
+    base::buffer &first = keepalive_.front();
+    size_t acked = std::min(size, first.size());
+
+    first.consume(acked);
+    size -= acked;
+
+    if (first.empty()) {
+      keepalive_.pop_front();
+    }
+  }
+
+  if (size > sent_) {
     BNL_LOG_E(
-      "ngtcp2's acked stream ({}) data ({}) exceeds remaining data ({})",
+      "ngtcp2's acked stream ({}) data exceeds remaining data by {} bytes",
       id_,
-      size,
-      keepalive_.size());
+      size - sent_);
     return error::internal;
   }
 
-  keepalive_.consume(size);
+  if (size > 0) {
+    buffers_.front().consume(size);
+    sent_ -= size;
+  }
 
   return base::success();
 }
-- 
2.43.0


From 4d10d30b9f02b7d63f942aaa2c1fd1f55507ecba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:59 +0000
Subject: [PATCH 34/59] fix: send the end of a QUIC stream exactly once, with
 or without data

---
 .../bnl/quic/client/ngtcp2/connection.hpp     |  8 +++--
 bnl/quic/include/bnl/quic/client/stream.hpp   |  1 +
 bnl/quic/src/client/ngtcp2/connection.cpp     |  7 ++---
 bnl/quic/src/client/stream.cpp                | 31 +++++++++++++------
 4 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/bnl/quic/include/bnl/quic/client/ngtcp2/connection.hpp b/bnl/quic/include/bnl/quic/client/ngtcp2/connection.hpp
index b1905a4..ae2c922 100644
--- a/bnl/quic/include/bnl/quic/client/ngtcp2/connection.hpp
+++ b/bnl/quic/include/bnl/quic/client/ngtcp2/connection.hpp
@@ -70,9 +70,11 @@ public:
 
   result<base::buffer> write_pkt();
 
-  result<std::pair<base::buffer, size_t>> write_stream(uint64_t id,
-                                                       base::buffer_view data,
-                                                       bool fin);
+  // Returns a packet and the number of bytes of `data` in it, which is -1 if the
+  // packet does not contain a frame of the stream.
+  result<std::pair<base::buffer, ssize_t>> write_stream(uint64_t id,
+                                                        base::buffer_view data,
+                                                        bool fin);
 
   result<void> read_pkt(base::buffer_view packet);
 
diff --git a/bnl/quic/include/bnl/quic/client/stream.hpp b/bnl/quic/include/bnl/quic/client/stream.hpp
index e9ebcb6..8293688 100644
--- a/bnl/quic/include/bnl/quic/client/stream.hpp
+++ b/bnl/quic/include/bnl/quic/client/stream.hpp
@@ -38,6 +38,7 @@ private:
   size_t sent_ = 0;
 
   bool fin_ = false;
+  bool fin_sent_ = false;
   bool opened_ = false;
 
   uint64_t id_;
diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index 8661b7b..da02419 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -1000,7 +1000,7 @@ connection::write_pkt()
   return base::buffer(storage.data(), static_cast<size_t>(rv));
 }
 
-result<std::pair<base::buffer, size_t>>
+result<std::pair<base::buffer, ssize_t>>
 connection::write_stream(uint64_t id, base::buffer_view data, bool fin)
 {
   std::array<uint8_t, NGTCP2_MAX_PKTLEN_IPV4> storage = {};
@@ -1028,12 +1028,9 @@ connection::write_stream(uint64_t id, base::buffer_view data, bool fin)
     THROW_NGTCP2(ngtcp2_conn_write_stream, static_cast<int>(rv));
   }
 
-  stream_data_written = stream_data_written == -1 ? 0 : stream_data_written;
-
   base::buffer packet(storage.data(), static_cast<size_t>(rv));
 
-  return std::make_pair(std::move(packet),
-                        static_cast<size_t>(stream_data_written));
+  return std::make_pair(std::move(packet), stream_data_written);
 }
 
 result<void>
diff --git a/bnl/quic/src/client/stream.cpp b/bnl/quic/src/client/stream.cpp
index f28c857..bf573d7 100644
--- a/bnl/quic/src/client/stream.cpp
+++ b/bnl/quic/src/client/stream.cpp
@@ -18,7 +18,7 @@ stream::stream(uint64_t id, ngtcp2::connection *ngtcp2)
 result<base::buffer>
 stream::send()
 {
-  if (buffers_.empty()) {
+  if (buffers_.empty() && (!fin_ || fin_sent_)) {
     return error::idle;
   }
 
@@ -32,14 +32,18 @@ stream::send()
     opened_ = true;
   }
 
-  const base::buffer &first = buffers_.front();
-  base::buffer_view data(first.data() + sent_, first.size() - sent_);
-  bool fin = fin_ && buffers_.size() == 1;
+  base::buffer_view data;
+  if (!buffers_.empty()) {
+    const base::buffer &first = buffers_.front();
+    data = base::buffer_view(first.data() + sent_, first.size() - sent_);
+  }
+
+  bool fin = fin_ && buffers_.size() <= 1;
 
   base::buffer packet;
-  size_t stream_bytes_written = 0;
+  ssize_t stream_bytes_written = 0;
 
-  result<std::pair<base::buffer, size_t>> r =
+  result<std::pair<base::buffer, ssize_t>> r =
     ngtcp2_->write_stream(id_, data, fin);
 
   if (!r) {
@@ -53,9 +57,18 @@ stream::send()
 
   std::tie(packet, stream_bytes_written) = std::move(r).value();
 
-  sent_ += stream_bytes_written;
+  // The packet does not contain a frame of this stream.
+  if (stream_bytes_written < 0) {
+    return packet;
+  }
+
+  // ngtcp2 only sets the FIN bit if all data fits into the frame.
+  size_t size = static_cast<size_t>(stream_bytes_written);
+  fin_sent_ = fin && size == data.size();
+
+  sent_ += size;
 
-  if (sent_ == first.size()) {
+  if (size > 0 && sent_ == buffers_.front().size()) {
     keepalive_.splice(keepalive_.end(), buffers_, buffers_.begin());
     sent_ = 0;
   }
@@ -119,7 +132,7 @@ stream::ack(size_t size)
 bool
 stream::finished() const noexcept
 {
-  return fin_ && buffers_.empty() && keepalive_.empty();
+  return fin_sent_ && buffers_.empty() && keepalive_.empty();
 }
 
 bool
-- 
2.43.0


From 41d888faed5aa8ccd74a8c27a2c923755572f83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:59 +0000
Subject: [PATCH 35/59] fix: report idle instead of an empty packet when the
 congestion window is full

---
 bnl/quic/src/client/ngtcp2/connection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index da02419..fd06c97 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -1024,6 +1024,11 @@ connection::write_stream(uint64_t id, base::buffer_view data, bool fin)
     return error::stream_data_blocked;
   }
 
+  // The congestion window is full.
+  if (rv == 0) {
+    return error::idle;
+  }
+
   if (rv < 0) {
     THROW_NGTCP2(ngtcp2_conn_write_stream, static_cast<int>(rv));
   }
-- 
2.43.0


From 2bede32717c308fd7e039a7259ec878b98e90544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:16 +0000
Subject: [PATCH 36/59] fix: accept the acknowledgement of the end of a
 finished QUIC stream

---
 bnl/quic/src/client/connection.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bnl/quic/src/client/connection.cpp b/bnl/quic/src/client/connection.cpp
index b5bae26..ee90839 100644
--- a/bnl/quic/src/client/connection.cpp
+++ b/bnl/quic/src/client/connection.cpp
@@ -81,6 +81,12 @@ result<void>
 connection::acked_stream_data_offset(uint64_t id, size_t size)
 {
   auto match = streams_.find(id);
+
+  // The end of a stream can be acknowledged after all of its data.
+  if (match == streams_.end() && size == 0) {
+    return base::success();
+  }
+
   if (match == streams_.end()) {
     BNL_LOG_E("ngtcp2 acked data for stream {} which does not exist", id);
     return error::internal;
-- 
2.43.0


From fa59b7d986a92e9450afd9b87fe6dbd0bd9f9ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:16 +0000
Subject: [PATCH 37/59] fix: forget QUIC streams that are closed so that others
 can still send

---
 bnl/quic/src/client/connection.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bnl/quic/src/client/connection.cpp b/bnl/quic/src/client/connection.cpp
index ee90839..86c8440 100644
--- a/bnl/quic/src/client/connection.cpp
+++ b/bnl/quic/src/client/connection.cpp
@@ -112,6 +112,9 @@ void
 connection::stream_closed(uint64_t id, uint64_t error)
 {
   BNL_LOG_I("stream closed: {} (reason: {})", id, error);
+
+  // ngtcp2 does not accept or refer to data of the stream anymore.
+  streams_.erase(id);
 }
 
 void
-- 
2.43.0


From 6c2de22765203ffd26ccee98ed7cbd10dd31dc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:14 +0000
Subject: [PATCH 38/59] fix: let the data of QUIC streams be added in any order
 of streams

---
 .../bnl/quic/client/ngtcp2/connection.hpp     |  4 ++
 bnl/quic/src/client/ngtcp2/connection.cpp     | 38 +++++++++++--------
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/bnl/quic/include/bnl/quic/client/ngtcp2/connection.hpp b/bnl/quic/include/bnl/quic/client/ngtcp2/connection.hpp
index ae2c922..53b02f7 100644
--- a/bnl/quic/include/bnl/quic/client/ngtcp2/connection.hpp
+++ b/bnl/quic/include/bnl/quic/client/ngtcp2/connection.hpp
@@ -272,6 +272,10 @@ private:
 
   path path_;
   clock clock_;
+
+  // The ids of the streams that ngtcp2 opens next.
+  uint64_t next_bidi_ = 0;
+  uint64_t next_uni_ = 2;
 };
 
 }
diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index fd06c97..74884d0 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -1100,25 +1100,33 @@ connection::expire()
 result<void>
 connection::open(uint64_t id)
 {
-  int64_t quic_id = 0;
-  int rv = 0;
+  bool bidi = (id & 0x2U) == 0;
+  uint64_t &next = bidi ? next_bidi_ : next_uni_;
+
+  // ngtcp2 opens the streams of a type in ascending order. Opening a stream also
+  // opens all streams of the same type with lower ids.
+  while (next <= id) {
+    int64_t quic_id = 0;
+    int rv = 0;
+
+    if (bidi) {
+      rv = ngtcp2_conn_open_bidi_stream(connection_.get(), &quic_id, nullptr);
+    } else {
+      rv = ngtcp2_conn_open_uni_stream(connection_.get(), &quic_id, nullptr);
+    }
 
-  if ((id & 0x2U) == 0) {
-    rv = ngtcp2_conn_open_bidi_stream(connection_.get(), &quic_id, nullptr);
-  } else {
-    rv = ngtcp2_conn_open_uni_stream(connection_.get(), &quic_id, nullptr);
-  }
+    if (rv == NGTCP2_ERR_STREAM_ID_BLOCKED) {
+      return error::stream_id_blocked;
+    }
 
-  if (rv == NGTCP2_ERR_STREAM_ID_BLOCKED) {
-    return error::stream_id_blocked;
-  }
+    if (rv != 0) {
+      THROW_NGTCP2(ngtcp2_conn_open_stream, rv);
+    }
 
-  if (rv != 0) {
-    THROW_NGTCP2(ngtcp2_conn_open_uni_stream, rv);
-  }
+    assert(static_cast<uint64_t>(quic_id) == next);
 
-  // Users are required to open streams in ascending order.
-  assert(static_cast<uint64_t>(quic_id) == id);
+    next += 4;
+  }
 
   return base::success();
 }
-- 
2.43.0


From f700456a3a5074bc98c6cea87f7cc2a0f172f146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:17 +0000
Subject: [PATCH 39/59] fix: give ngtcp2 the peer's address instead of the
 local one

---
 bnl/quic/src/client/ngtcp2/connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index 74884d0..ad4f5a5 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -61,7 +61,7 @@ static ngtcp2_path_storage
 make_path(const path &path)
 {
   base::buffer_view local = path.local().address().bytes();
-  base::buffer_view peer = path.local().address().bytes();
+  base::buffer_view peer = path.peer().address().bytes();
 
   ngtcp2_path_storage storage = {};
   ngtcp2_path_storage_init(&storage,
-- 
2.43.0


From d9be17a67a825e13948542641db09402c8e34154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:17 +0000
Subject: [PATCH 40/59] fix: make room for transport parameters with large
 values

---
 bnl/quic/src/client/ngtcp2/connection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index ad4f5a5..780de28 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -781,7 +781,8 @@ connection::get_local_transport_parameters() noexcept
   ngtcp2_transport_params params;
   ngtcp2_conn_get_local_transport_params(connection_.get(), &params);
 
-  std::array<uint8_t, 64> tp = {};
+  // Room for every parameter with the largest value.
+  std::array<uint8_t, 256> tp = {};
 
   ssize_t nwrite = ngtcp2_encode_transport_params(
     tp.data(), tp.size(), NGTCP2_TRANSPORT_PARAMS_TYPE_CLIENT_HELLO, &params);
-- 
2.43.0


From f8515761edaf87feeeebe19a4f8f15885da53a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:17 +0000
Subject: [PATCH 41/59] fix: don't use messages of ngtcp2 and BoringSSL as
 format strings

---
 bnl/quic/src/client/handshake/boringssl.cpp | 2 +-
 bnl/quic/src/client/ngtcp2/connection.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bnl/quic/src/client/handshake/boringssl.cpp b/bnl/quic/src/client/handshake/boringssl.cpp
index ee7904e..9225200 100644
--- a/bnl/quic/src/client/handshake/boringssl.cpp
+++ b/bnl/quic/src/client/handshake/boringssl.cpp
@@ -336,7 +336,7 @@ handshake::impl::log_errors()
     std::array<char, 100> string = {};
     ERR_error_string_n(error, string.data(), string.size());
 
-    BNL_LOG_E(string.data());
+    BNL_LOG_E("{}", string.data());
   }
 }
 
diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index 780de28..5337e90 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -644,7 +644,7 @@ connection::log(void *context, const char *format, ...) // NOLINT
 
   va_end(args); // NOLINT
 
-  BNL_LOG_T(formatted.data());
+  BNL_LOG_T("{}", formatted.data());
 }
 
 static ngtcp2_cid
-- 
2.43.0


From e85ee8e9280490d798ef16dec61e2cece93d86e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:07 +0000
Subject: [PATCH 42/59] fix: report packets that cannot be decrypted as such
 instead of failing the callback

---
 bnl/quic/src/client/ngtcp2/connection.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index 5337e90..e8b0f87 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -193,8 +193,10 @@ connection::in_decrypt(ngtcp2_conn *connection,
                    base::buffer_view(ad, ad_size));
 
   // TODO: Fix after https://github.com/ngtcp2/ngtcp2/pull/128
+  // ngtcp2 discards packets that cannot be decrypted but gives up on the
+  // connection if a callback fails.
   return r ? static_cast<ssize_t>(ciphertext_size - crypto.aead_overhead())
-           : static_cast<ssize_t>(NGTCP2_ERR_CALLBACK_FAILURE);
+           : static_cast<ssize_t>(NGTCP2_ERR_TLS_DECRYPT);
 }
 
 ssize_t
@@ -268,8 +270,10 @@ connection::decrypt(ngtcp2_conn *connection,
                    base::buffer_view(ad, ad_size));
 
   // TODO: Fix after https://github.com/ngtcp2/ngtcp2/pull/128
+  // ngtcp2 discards packets that cannot be decrypted but gives up on the
+  // connection if a callback fails.
   return r ? static_cast<ssize_t>(ciphertext_size - crypto.aead_overhead())
-           : static_cast<ssize_t>(NGTCP2_ERR_CALLBACK_FAILURE);
+           : static_cast<ssize_t>(NGTCP2_ERR_TLS_DECRYPT);
 }
 
 ssize_t
-- 
2.43.0


From c0fa92acd60dedc2aeb6d52c718c8d99cbacc48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:21 +0000
Subject: [PATCH 43/59] fix: close the descriptor that a moved one replaces

---
 bnl/http3/app/endpoint/os/fd.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bnl/http3/app/endpoint/os/fd.cpp b/bnl/http3/app/endpoint/os/fd.cpp
index c8ac408..32017b3 100644
--- a/bnl/http3/app/endpoint/os/fd.cpp
+++ b/bnl/http3/app/endpoint/os/fd.cpp
@@ -16,6 +16,10 @@ fd &
 fd::operator=(fd &&other) noexcept
 {
   if (&other != this) {
+    if (fd_ != -1) {
+      close(fd_);
+    }
+
     fd_ = other.fd_;
     other.fd_ = -1;
   }
-- 
2.43.0


From 1ca7117ba533bffebdfa26b83a693980fc905fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:21 +0000
Subject: [PATCH 44/59] fix: report the pending error of a socket

---
 bnl/http3/app/endpoint/os/socket/udp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/app/endpoint/os/socket/udp.cpp b/bnl/http3/app/endpoint/os/socket/udp.cpp
index 5f0e718..954b348 100644
--- a/bnl/http3/app/endpoint/os/socket/udp.cpp
+++ b/bnl/http3/app/endpoint/os/socket/udp.cpp
@@ -159,7 +159,7 @@ udp::error() const noexcept
     THROW_SYSTEM(getsockopt, errno);
   }
 
-  return {};
+  return { error, std::system_category() };
 }
 
 result<void>
-- 
2.43.0


From bdaa2eac2323a6412585bfb1d78b0f6df343fffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:21 +0000
Subject: [PATCH 45/59] fix: don't lose a datagram that arrives while looking
 for one

---
 bnl/http3/app/endpoint/os/socket/udp.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/bnl/http3/app/endpoint/os/socket/udp.cpp b/bnl/http3/app/endpoint/os/socket/udp.cpp
index 954b348..25013b4 100644
--- a/bnl/http3/app/endpoint/os/socket/udp.cpp
+++ b/bnl/http3/app/endpoint/os/socket/udp.cpp
@@ -5,7 +5,6 @@
 #include <arpa/inet.h>
 #include <cassert>
 #include <sys/epoll.h>
-#include <sys/ioctl.h>
 
 static sockaddr_storage
 make_sockaddr(ip::endpoint endpoint)
@@ -196,15 +195,20 @@ udp::add(base::buffer buffer)
 result<base::buffer>
 udp::recv()
 {
-  int size = 0;
+  // The size of the next datagram. (`FIONREAD` can't tell an empty queue from an
+  // empty datagram, so a datagram that arrives afterwards would be cut off.)
+  ssize_t rv = ::recv(socket_, nullptr, 0, MSG_PEEK | MSG_TRUNC); // NOLINT
+  if (rv == -1) {
+    if (errno == EAGAIN) {
+      return { errno, std::system_category() };
+    }
 
-  if ((ioctl(socket_, FIONREAD, &size)) == -1) { // NOLINT
-    THROW_SYSTEM(ioctl, errno);
+    THROW_SYSTEM(read, errno);
   }
 
-  base::buffer datagram(static_cast<size_t>(size));
+  base::buffer datagram(static_cast<size_t>(rv));
 
-  ssize_t rv = ::recv(socket_, datagram.data(), datagram.size(), 0);
+  rv = ::recv(socket_, datagram.data(), datagram.size(), 0);
   if (rv == -1) {
     if (errno == EAGAIN) {
       return { errno, std::system_category() };
-- 
2.43.0


From d50cf6cf78b74457136f9b2fc37d7f5d2afdca2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:21 +0000
Subject: [PATCH 46/59] fix: report texts that are no address with an error
 code that is an error

---
 bnl/http3/app/endpoint/os/ip/address.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bnl/http3/app/endpoint/os/ip/address.cpp b/bnl/http3/app/endpoint/os/ip/address.cpp
index 87a0b0e..bf5b7d9 100644
--- a/bnl/http3/app/endpoint/os/ip/address.cpp
+++ b/bnl/http3/app/endpoint/os/ip/address.cpp
@@ -9,22 +9,30 @@ make_address(base::string_view address)
 {
   base::string string(address.data(), address.size());
 
+  if (string.find('\0') != base::string::npos) {
+    THROW_SYSTEM(inet_pton, EINVAL);
+  }
+
   std::array<uint8_t, ipv4::address::size> ipv4 = {};
   int rv = inet_pton(AF_INET, string.c_str(), ipv4.data());
   if (rv == 1) {
     return ipv4::address({ ipv4.data(), ipv4.size() });
   }
 
-  if (rv != 0) {
+  if (rv == -1) {
     THROW_SYSTEM(inet_pton, errno);
   }
 
   std::array<uint8_t, ipv6::address::size> ipv6 = {};
   rv = inet_pton(AF_INET6, string.c_str(), ipv6.data());
-  if (rv != 1) {
+  if (rv == -1) {
     THROW_SYSTEM(inet_pton, errno);
   }
 
+  if (rv == 0) {
+    THROW_SYSTEM(inet_pton, EINVAL);
+  }
+
   return ipv6::address({ ipv6.data(), ipv6.size() });
 }
 
-- 
2.43.0


From 39fd93cc5208de3413699905d89f5d0495198aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:21 +0000
Subject: [PATCH 47/59] fix: give the timeout an error code that is an error

---
 bnl/http3/app/endpoint/os/result.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/app/endpoint/os/result.hpp b/bnl/http3/app/endpoint/os/result.hpp
index c03e5d5..3cfa77a 100644
--- a/bnl/http3/app/endpoint/os/result.hpp
+++ b/bnl/http3/app/endpoint/os/result.hpp
@@ -6,7 +6,7 @@
 #include <system_error>
 
 enum class error {
-  timeout,
+  timeout = 1, // 0 is not an error.
   resolve,
   invalid_argument,
   idle,
-- 
2.43.0


From 3dc851df6b39d8cdd686d5316f446b1afb2396a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:21 +0000
Subject: [PATCH 48/59] fix: don't convert existing event sources to false

---
 bnl/http3/app/endpoint/sd/event/source.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/app/endpoint/sd/event/source.cpp b/bnl/http3/app/endpoint/sd/event/source.cpp
index 47ad266..a232780 100644
--- a/bnl/http3/app/endpoint/sd/event/source.cpp
+++ b/bnl/http3/app/endpoint/sd/event/source.cpp
@@ -37,7 +37,7 @@ source::sd() const noexcept
 
 source::operator bool() const noexcept
 {
-  return source_ == nullptr;
+  return source_ != nullptr;
 }
 
 io::io(sd_event_source *source) noexcept
-- 
2.43.0


From a6a551782703b7cb6e9ed9d8c2f517550512af58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:21 +0000
Subject: [PATCH 49/59] fix: keep clocks of an event loop valid when the loop
 is moved

---
 bnl/http3/app/endpoint/sd/event/loop.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/bnl/http3/app/endpoint/sd/event/loop.cpp b/bnl/http3/app/endpoint/sd/event/loop.cpp
index cd8414e..fb74ce4 100644
--- a/bnl/http3/app/endpoint/sd/event/loop.cpp
+++ b/bnl/http3/app/endpoint/sd/event/loop.cpp
@@ -24,22 +24,30 @@ loop::loop()
   event_ = decltype(event_)(event, sd_event_unref);
 }
 
-duration
-loop::now() const noexcept
+static duration
+now(sd_event *event) noexcept
 {
   uint64_t result = 0;
 
-  int rv = sd_event_now(event_.get(), CLOCK_MONOTONIC, &result);
+  int rv = sd_event_now(event, CLOCK_MONOTONIC, &result);
   (void) rv; // Silence GCC 9 Wunused-variable warning
   assert(rv >= 0);
 
   return duration(result);
 }
 
+duration
+loop::now() const noexcept
+{
+  return event::now(event_.get());
+}
+
 std::function<sd::event::duration()>
 loop::clock() const noexcept
 {
-  return [this]() { return now(); };
+  // The loop can be moved while the clock is in use.
+  sd_event *event = event_.get();
+  return [event]() { return event::now(event); };
 }
 
 result<io>
-- 
2.43.0


From b220028a7416eb9c023d2e45255eccbb50cd41f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:11 +0000
Subject: [PATCH 50/59] fix: report sockets that cannot be made instead of
 using a missing result

---
 bnl/http3/app/endpoint/client.cpp        | 10 ++++++++--
 bnl/http3/app/endpoint/os/socket/udp.cpp | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/bnl/http3/app/endpoint/client.cpp b/bnl/http3/app/endpoint/client.cpp
index 76706fe..5d4c373 100644
--- a/bnl/http3/app/endpoint/client.cpp
+++ b/bnl/http3/app/endpoint/client.cpp
@@ -331,9 +331,15 @@ run(int argc, char *argv[])
 int
 main(int argc, char *argv[])
 {
-  result<void> r = run(argc, argv);
+  try {
+    result<void> r = run(argc, argv);
 
-  if (!r) {
+    if (!r) {
+      return 1;
+    }
+  } catch (const std::system_error &e) {
+    // The socket could not be made.
+    std::cerr << e.what() << std::endl;
     return 1;
   }
 
diff --git a/bnl/http3/app/endpoint/os/socket/udp.cpp b/bnl/http3/app/endpoint/os/socket/udp.cpp
index 25013b4..523ca2b 100644
--- a/bnl/http3/app/endpoint/os/socket/udp.cpp
+++ b/bnl/http3/app/endpoint/os/socket/udp.cpp
@@ -108,8 +108,14 @@ namespace os {
 namespace socket {
 
 udp::udp(ip::endpoint peer)
-  : socket_(make_socket(peer).assume_value())
-{}
+{
+  result<os::fd> r = make_socket(peer);
+  if (!r) {
+    throw std::system_error(r.error());
+  }
+
+  socket_ = std::move(r).value();
+}
 
 ip::endpoint
 udp::local() const
-- 
2.43.0


From 57f713f2dbb7ed5821f9065c91e5a48f54e43358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:15 +0000
Subject: [PATCH 51/59] fix: set the retransmission timer to the expiry, which
 is a point in time

---
 bnl/http3/app/endpoint/client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/app/endpoint/client.cpp b/bnl/http3/app/endpoint/client.cpp
index 5d4c373..595d0fe 100644
--- a/bnl/http3/app/endpoint/client.cpp
+++ b/bnl/http3/app/endpoint/client.cpp
@@ -125,7 +125,7 @@ client::send()
     r = send_once();
   } while (r);
 
-  retransmit_.update(sd_.now() + quic_.expiry());
+  retransmit_.update(quic_.expiry());
   timeout_.update(sd_.now() + quic_.timeout());
 
   if (r.error() == std::errc::resource_unavailable_try_again ||
-- 
2.43.0


From d9c25071ee4f9f1fa05d872e447b8b0b7b4759ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:15 +0000
Subject: [PATCH 52/59] fix: end the client with the error of a failing handler
 instead of waiting for the timeout

---
 bnl/http3/app/endpoint/client.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/bnl/http3/app/endpoint/client.cpp b/bnl/http3/app/endpoint/client.cpp
index 595d0fe..5f6c852 100644
--- a/bnl/http3/app/endpoint/client.cpp
+++ b/bnl/http3/app/endpoint/client.cpp
@@ -76,11 +76,18 @@ client::client(client &&other) noexcept
 void
 client::setup()
 {
-  using namespace std::placeholders;
-
-  socket_watcher_.on_io(std::bind(&client::io, this, _1));
-  retransmit_.on_expire(std::bind(&client::retransmit, this, _1));
-  timeout_.on_expire(std::bind(&client::timeout, this, _1));
+  // The event loop only disables the source of a handler that fails.
+  auto check = [this](result<void> r) {
+    return r ? std::move(r) : sd_.exit(r.error());
+  };
+
+  socket_watcher_.on_io(
+    [this, check](uint32_t events) { return check(io(events)); });
+  retransmit_.on_expire([this, check](sd::event::duration usec) {
+    return check(retransmit(usec));
+  });
+  timeout_.on_expire(
+    [this, check](sd::event::duration usec) { return check(timeout(usec)); });
 }
 
 result<http3::request::handle>
-- 
2.43.0


From 7c59f77cdb84510817c0298a5196f2f553463f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:15 +0000
Subject: [PATCH 53/59] fix: refuse arguments of the client that are no port

---
 bnl/http3/app/endpoint/client.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/app/endpoint/client.cpp b/bnl/http3/app/endpoint/client.cpp
index 5f6c852..ae27e8f 100644
--- a/bnl/http3/app/endpoint/client.cpp
+++ b/bnl/http3/app/endpoint/client.cpp
@@ -7,7 +7,9 @@
 #include <bnl/log/console.hpp>
 
 #include <csignal>
+#include <cstdlib>
 #include <iostream>
+#include <limits>
 #include <memory>
 
 #include <sys/epoll.h>
@@ -283,7 +285,16 @@ run(int argc, char *argv[])
   }
 
   ip::address address = resolved[0];
-  ip::port port = static_cast<uint16_t>(std::stoul(argv[2]));
+
+  char *end = nullptr;
+  unsigned long number = std::strtoul(argv[2], &end, 10);
+  if (end == argv[2] || *end != '\0' ||
+      number > std::numeric_limits<uint16_t>::max()) {
+    BNL_LOG_E("{} is not a port", argv[2]);
+    return error::invalid_argument;
+  }
+
+  ip::port port = static_cast<uint16_t>(number);
   ip::endpoint peer(address, port);
 
   client client(host, peer);
-- 
2.43.0


From 250bac5fc7ac61daace597f2278bedfa3c0ae229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 54/59] fix: extend the flow control windows when stream data
 arrives

---
 bnl/quic/src/client/ngtcp2/connection.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index e8b0f87..3c4cf4f 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -337,7 +337,6 @@ connection::recv_stream_data(ngtcp2_conn *connection,
                              void *context,
                              void *stream_context)
 {
-  (void) connection;
   (void) offset;
   (void) stream_context;
   auto client = static_cast<client::connection *>(context);
@@ -345,6 +344,14 @@ connection::recv_stream_data(ngtcp2_conn *connection,
   client->recv_stream_data(
     static_cast<uint64_t>(id), fin != 0, base::buffer_view(data, size));
 
+  // We've taken all of the data so the peer may send as much again.
+  int rv = ngtcp2_conn_extend_max_stream_offset(connection, id, size);
+  if (rv != 0) {
+    return NGTCP2_ERR_CALLBACK_FAILURE;
+  }
+
+  ngtcp2_conn_extend_max_offset(connection, size);
+
   return 0;
 }
 
-- 
2.43.0


From 08f708ceb78956bc11df714b8333ccc8e1e8bec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 55/59] fix: let the QPACK interop tools fail when their output
 can't be written

---
 bnl/http3/app/qpack/qpack-interop-decode.cpp | 9 +++++++++
 bnl/http3/app/qpack/qpack-interop-encode.cpp | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/bnl/http3/app/qpack/qpack-interop-decode.cpp b/bnl/http3/app/qpack/qpack-interop-decode.cpp
index f919f3b..1c38e8f 100644
--- a/bnl/http3/app/qpack/qpack-interop-decode.cpp
+++ b/bnl/http3/app/qpack/qpack-interop-decode.cpp
@@ -120,6 +120,9 @@ main(int argc, char *argv[])
     return 1;
   }
 
+  // Writing is checked once, after all output was written.
+  output.exceptions(std::ofstream::goodbit);
+
   // Decode input
 
   while (!encoded.empty()) {
@@ -130,5 +133,11 @@ main(int argc, char *argv[])
     }
   }
 
+  output.close();
+  if (output.fail()) {
+    BNL_LOG_E("Error writing output file");
+    return 1;
+  }
+
   return 0;
 }
diff --git a/bnl/http3/app/qpack/qpack-interop-encode.cpp b/bnl/http3/app/qpack/qpack-interop-encode.cpp
index 4842127..6d12e6e 100644
--- a/bnl/http3/app/qpack/qpack-interop-encode.cpp
+++ b/bnl/http3/app/qpack/qpack-interop-encode.cpp
@@ -111,6 +111,9 @@ main(int argc, char *argv[])
     return 1;
   }
 
+  // Writing is checked once, after all output was written.
+  output.exceptions(std::ofstream::goodbit);
+
   // Read input
 
   base::string line;
@@ -158,5 +161,11 @@ main(int argc, char *argv[])
     }
   }
 
+  output.close();
+  if (output.fail()) {
+    BNL_LOG_E("Error writing output file");
+    return 1;
+  }
+
   return 0;
 }
-- 
2.43.0


From 2c1ee4e888dae4121bb4102507cbe95172cdd810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 56/59] fix: let the QPACK interop tools fail when their input
 is a directory

---
 bnl/http3/app/qpack/qpack-interop-decode.cpp |  2 +-
 bnl/http3/app/qpack/qpack-interop-encode.cpp | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/bnl/http3/app/qpack/qpack-interop-decode.cpp b/bnl/http3/app/qpack/qpack-interop-decode.cpp
index 1c38e8f..5ffe28b 100644
--- a/bnl/http3/app/qpack/qpack-interop-decode.cpp
+++ b/bnl/http3/app/qpack/qpack-interop-decode.cpp
@@ -103,7 +103,7 @@ main(int argc, char *argv[])
 
     encoded = base::buffer(static_cast<size_t>(size));
     input.read(reinterpret_cast<char *>(encoded.data()), size);
-  } catch (const std::ios_base::failure &e) {
+  } catch (const std::exception &e) {
     BNL_LOG_E("Error reading input: {}", e.what());
     return 1;
   }
diff --git a/bnl/http3/app/qpack/qpack-interop-encode.cpp b/bnl/http3/app/qpack/qpack-interop-encode.cpp
index 6d12e6e..9836f0c 100644
--- a/bnl/http3/app/qpack/qpack-interop-encode.cpp
+++ b/bnl/http3/app/qpack/qpack-interop-encode.cpp
@@ -96,8 +96,9 @@ main(int argc, char *argv[])
     return 1;
   }
 
-  // `std::getline` sets `failbit` when it doesn't read any characters.
-  input.exceptions(std::ifstream::badbit);
+  // `std::getline` sets `failbit` when it doesn't read any characters. `badbit`
+  // is checked after all input was read.
+  input.exceptions(std::ifstream::goodbit);
 
   std::ofstream output;
   output.exceptions(std::ofstream::failbit | std::ofstream::badbit);
@@ -152,6 +153,11 @@ main(int argc, char *argv[])
     headers.emplace_back(std::move(header));
   }
 
+  if (input.bad()) {
+    BNL_LOG_E("Error reading input");
+    return 1;
+  }
+
   // The last header list doesn't have to be followed by an empty line.
   if (!headers.empty()) {
     http3::result<void> r = encode(id, headers, output);
-- 
2.43.0


From 84538988c6467c35c3855b4b935a39129652988b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:40 +0000
Subject: [PATCH 57/59] fix: lose log messages that can't be written instead of
 terminating

---
 bnl/log/src/console.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bnl/log/src/console.cpp b/bnl/log/src/console.cpp
index 77c392c..608aa30 100644
--- a/bnl/log/src/console.cpp
+++ b/bnl/log/src/console.cpp
@@ -4,6 +4,7 @@
 #include <fmt/color.h>
 
 #include <array>
+#include <system_error>
 
 static constexpr std::array<const char *, 6> level_names = { "TRACE", "DEBUG",
                                                              "INFO ", "WARN ",
@@ -28,7 +29,7 @@ console::log(base::log::level level,
              int line,
              const char *format,
              const fmt::format_args &args) const
-{
+try {
   (void) function;
 
   if (level < level_) {
@@ -66,6 +67,9 @@ console::log(base::log::level level,
   fmt::print(output, "\n");
 
   fflush(output);
+} catch (const std::system_error &) {
+  // Messages that can't be written are lost. That's no reason to interrupt what
+  // they are about.
 }
 
 }
-- 
2.43.0


From 81b43e8a4968790192ec0ad11af60c7762757702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:40 +0000
Subject: [PATCH 58/59] fix: let the client fail when the response can't be
 written

---
 bnl/http3/app/endpoint/client.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bnl/http3/app/endpoint/client.cpp b/bnl/http3/app/endpoint/client.cpp
index ae27e8f..cad5297 100644
--- a/bnl/http3/app/endpoint/client.cpp
+++ b/bnl/http3/app/endpoint/client.cpp
@@ -341,6 +341,11 @@ run(int argc, char *argv[])
   std::cout.write(reinterpret_cast<char *>(body.data()),
                   static_cast<std::streamsize>(body.size()));
 
+  if (!std::cout.flush()) {
+    BNL_LOG_E("Failed to write the response");
+    return std::make_error_code(std::errc::io_error);
+  }
+
   return base::success();
 }
 
-- 
2.43.0


From 1a26de6eb96f9d32e0017a5d8932351bda958da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:40 +0000
Subject: [PATCH 59/59] fix: let the client fail when a signal interrupts the
 response

---
 bnl/http3/app/endpoint/client.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bnl/http3/app/endpoint/client.cpp b/bnl/http3/app/endpoint/client.cpp
index cad5297..3fbb6b0 100644
--- a/bnl/http3/app/endpoint/client.cpp
+++ b/bnl/http3/app/endpoint/client.cpp
@@ -311,6 +311,7 @@ run(int argc, char *argv[])
 
   std::vector<http3::header> headers;
   base::buffer body;
+  bool finished = false;
 
   BNL_TRY(client.run([&](http3::event event) -> result<void> {
     switch (event) {
@@ -326,12 +327,19 @@ run(int argc, char *argv[])
         break;
 
       case http3::event::type::finished:
+        finished = true;
         return error::finished;
     }
 
     return base::success();
   }));
 
+  // Signals end the event loop without an error.
+  if (!finished) {
+    BNL_LOG_E("Interrupted before the response was complete");
+    return std::make_error_code(std::errc::interrupted);
+  }
+
   for (const auto &header : headers) {
     std::cout << header << std::endl;
   }
-- 
2.43.0

