From a4bee7991d59afc2ceb9bef55a8e814c5e0ceb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:51 +0000
Subject: [PATCH 01/67] fix: reject true, false and null cut short by a comment

"[tru/**/]" was accepted and read as [true].
---
 lib/json/JSON_parser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/json/JSON_parser.c b/lib/json/JSON_parser.c
index 393b3fc..0772dd0 100644
--- a/lib/json/JSON_parser.c
+++ b/lib/json/JSON_parser.c
@@ -272,14 +272,14 @@ static int state_transition_table[NR_STATES][NR_CLASSES] = {
 /*exp    E3*/ {OK,OK,__,-8,__,-7,__,-3,__,__,__,__,__,__,E3,E3,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
 /*tr     T1*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,T2,__,__,__,__,__,__,__},
 /*tru    T2*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,T3,__,__,__,__},
-/*true   T3*/ {__,__,__,__,__,__,__,__,__,__,CB,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__,__,__},
+/*true   T3*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__,__,__},
 /*fa     F1*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,F2,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
 /*fal    F2*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,F3,__,__,__,__,__,__,__,__,__},
 /*fals   F3*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,F4,__,__,__,__,__,__},
-/*false  F4*/ {__,__,__,__,__,__,__,__,__,__,CB,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__,__,__},
+/*false  F4*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__,__,__},
 /*nu     N1*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,N2,__,__,__,__},
 /*nul    N2*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,N3,__,__,__,__,__,__,__,__,__},
-/*null   N3*/ {__,__,__,__,__,__,__,__,__,__,CB,__,__,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__},
+/*null   N3*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__},
 /*/      C1*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,C2},
 /*/*     C2*/ {C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C3},
 /**      C3*/ {C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,CE,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C3},
-- 
2.43.0


From 8f64b0e01ba5f596bb6e1df1281822fdfbe4de7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:51 +0000
Subject: [PATCH 02/67] fix: accept a comment directly after an exponent or a
 decimal point

"[1e5/* c */]" was rejected although a comment is accepted after any other number.
---
 lib/json/JSON_parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/json/JSON_parser.c b/lib/json/JSON_parser.c
index 0772dd0..882fab0 100644
--- a/lib/json/JSON_parser.c
+++ b/lib/json/JSON_parser.c
@@ -269,7 +269,7 @@ static int state_transition_table[NR_STATES][NR_CLASSES] = {
 /*frac   FR*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,__,FR,FR,__,__,__,__,E1,__,__,__,__,__,__,__,__,E1,__,__},
 /*e      E1*/ {__,__,__,__,__,__,__,__,__,__,__,E2,E2,__,E3,E3,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
 /*ex     E2*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,E3,E3,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
-/*exp    E3*/ {OK,OK,__,-8,__,-7,__,-3,__,__,__,__,__,__,E3,E3,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
+/*exp    E3*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,__,E3,E3,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
 /*tr     T1*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,T2,__,__,__,__,__,__,__},
 /*tru    T2*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,T3,__,__,__,__},
 /*true   T3*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__,__,__},
@@ -283,7 +283,7 @@ static int state_transition_table[NR_STATES][NR_CLASSES] = {
 /*/      C1*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,C2},
 /*/*     C2*/ {C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C3},
 /**      C3*/ {C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,CE,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C3},
-/*_.     FX*/ {OK,OK,__,-8,__,-7,__,-3,__,__,__,__,__,__,FR,FR,__,__,__,__,E1,__,__,__,__,__,__,__,__,E1,__,__},
+/*_.     FX*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,__,FR,FR,__,__,__,__,E1,__,__,__,__,__,__,__,__,E1,__,__},
 /*\      D1*/ {__,__,__,__,__,__,__,__,__,D2,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
 /*\      D2*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,U1,__,__,__,__},
 };
-- 
2.43.0


From e5b54156e9d28aea6153f31a045ef561a2a50102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:51 +0000
Subject: [PATCH 03/67] fix: accept an exponent directly after a leading zero

"[0e5]" is valid JSON and was rejected.
---
 lib/json/JSON_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/JSON_parser.c b/lib/json/JSON_parser.c
index 882fab0..c8aa561 100644
--- a/lib/json/JSON_parser.c
+++ b/lib/json/JSON_parser.c
@@ -264,7 +264,7 @@ static int state_transition_table[NR_STATES][NR_CLASSES] = {
 /*u3     U3*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,U4,U4,U4,U4,U4,U4,U4,U4,__,__,__,__,__,__,U4,U4,__,__},
 /*u4     U4*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,UC,UC,UC,UC,UC,UC,UC,UC,__,__,__,__,__,__,UC,UC,__,__},
 /*minus  MI*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,ZE,IT,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
-/*zero   ZE*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,DF,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
+/*zero   ZE*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,DF,__,__,__,__,__,__,DE,__,__,__,__,__,__,__,__,DE,__,__},
 /*int    IT*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,DF,IT,IT,__,__,__,__,DE,__,__,__,__,__,__,__,__,DE,__,__},
 /*frac   FR*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,__,FR,FR,__,__,__,__,E1,__,__,__,__,__,__,__,__,E1,__,__},
 /*e      E1*/ {__,__,__,__,__,__,__,__,__,__,__,E2,E2,__,E3,E3,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
-- 
2.43.0


From 76dfe75f5454590a9b91d2b90981d8148134b57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:01 +0000
Subject: [PATCH 04/67] fix: do not let text skipped before a JSON document
 corrupt its first number

The rejected characters stayed in the parse buffer, so "x[1]" was read as a
list with an uninitialised number.
---
 lib/json/JSON_parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/json/JSON_parser.c b/lib/json/JSON_parser.c
index c8aa561..eace869 100644
--- a/lib/json/JSON_parser.c
+++ b/lib/json/JSON_parser.c
@@ -960,6 +960,10 @@ JSON_parser_char(JSON_parser jc, int next_char)
     Bad action.
 */
         default:
+            /* text skipped in front of a document is not part of its first value */
+            if (jc->state == GO) {
+                parse_buffer_clear(jc);
+            }
             return false;
         }
     }
-- 
2.43.0


From 6b28f71837b3942d11fd4f5f993185ec3c95d944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:13 +0000
Subject: [PATCH 05/67] fix: do not read past the Base64 decoding table on '{'

---
 src/Base64.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Base64.cc b/src/Base64.cc
index 99ccc50..892ae4b 100644
--- a/src/Base64.cc
+++ b/src/Base64.cc
@@ -128,7 +128,7 @@ namespace libvariant {
 		do {\
 			if (i == e) { return o - (signed char*)outptr; }\
 			signed char val = *i++ - 43;\
-			if (val < 0 || val > decoding_size) { fragment = -1; }\
+			if (val < 0 || val >= decoding_size) { fragment = -1; }\
 			else { fragment = decoding[(int)val]; }\
 		} while (fragment < 0)
 
-- 
2.43.0


From 78a03d91a9c1329a2b3cb89c8fda3576523d5015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:32 +0000
Subject: [PATCH 06/67] fix: skip empty buffers when Base64 encoding a
 scattered blob

---
 src/Base64.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/Base64.cc b/src/Base64.cc
index 892ae4b..e1b78ea 100644
--- a/src/Base64.cc
+++ b/src/Base64.cc
@@ -15,13 +15,10 @@ namespace libvariant {
 	public:
 		iov_iterator() : iov(0), len(0), slab(0), offset(0) {}
 		iov_iterator(const iov_iterator &o) : iov(o.iov), len(o.len), slab(o.slab), offset(o.offset) {}
-		iov_iterator(const struct iovec *v, unsigned l) : iov(v), len(l), slab(0), offset(0) {}
+		iov_iterator(const struct iovec *v, unsigned l) : iov(v), len(l), slab(0), offset(0) { skip_empty(); }
 		iov_iterator &operator++() {
 			++offset;
-			if (offset >= iov[slab].iov_len) {
-				++slab;
-				offset = 0;
-			}
+			skip_empty();
 			return *this;
 		}
 		iov_iterator operator++(int) {
@@ -46,6 +43,14 @@ namespace libvariant {
 		}
 
 	private:
+		// Move on to the next buffer that has data left
+		void skip_empty() {
+			while (slab < len && offset >= iov[slab].iov_len) {
+				++slab;
+				offset = 0;
+			}
+		}
+
 		const struct iovec *iov;
 		unsigned len;
 		unsigned slab;
-- 
2.43.0


From 9c949388b0f9dbd64c9ccf24ee1a6cebfa3c06c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:32 +0000
Subject: [PATCH 07/67] fix: do not compare a blob equal to a longer blob that
 starts with it

---
 src/Blob.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Blob.cc b/src/Blob.cc
index 3e12d55..5780f8e 100644
--- a/src/Blob.cc
+++ b/src/Blob.cc
@@ -116,6 +116,11 @@ namespace libvariant {
 				++j;
 			}
 		}
+		// All the data in common is equal, so the blob with data left is greater
+		while (i < GetNumBuffers() && GetLength(i) == 0) { ++i; }
+		while (j < other->GetNumBuffers() && other->GetLength(j) == 0) { ++j; }
+		if (i < GetNumBuffers()) { return 1; }
+		if (j < other->GetNumBuffers()) { return -1; }
 		return 0;
 	}
 }
-- 
2.43.0


From 12469002a45e4cc687a4886c57211d0f59148e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:32 +0000
Subject: [PATCH 08/67] fix: do not form a reference into the empty buffer list
 when copying an empty blob

---
 src/Blob.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Blob.cc b/src/Blob.cc
index 5780f8e..9535979 100644
--- a/src/Blob.cc
+++ b/src/Blob.cc
@@ -86,7 +86,7 @@ namespace libvariant {
 	}
 
 	shared_ptr<Blob> Blob::Copy() const {
-		return CreateCopy(&iov[0], iov.size());
+		return CreateCopy(iov.data(), iov.size());
 	}
 
 	unsigned Blob::GetTotalLength() const {
-- 
2.43.0


From c128362c96777c1b0d501e9f6a6eee875a1ca0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:03:45 +0000
Subject: [PATCH 09/67] fix: start an output buffer without a length pointer at
 its beginning

---
 src/EmitterOutput.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EmitterOutput.cc b/src/EmitterOutput.cc
index 5645c9d..7cc330d 100644
--- a/src/EmitterOutput.cc
+++ b/src/EmitterOutput.cc
@@ -80,7 +80,7 @@ namespace libvariant {
    	}
 
 	EmitterMemoryOutput::EmitterMemoryOutput(void *ptr, unsigned len, unsigned *out_len)
-		: data_ptr(ptr), length(len), out_length(out_len)
+		: data_ptr(ptr), length(len), out_length_dummy(0), out_length(out_len)
    	{
 		if (0 == out_length) {
 			out_length = &out_length_dummy;
-- 
2.43.0


From e74ebac8fed9dac99fc3925ff2e4ed09449600c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:03:45 +0000
Subject: [PATCH 10/67] fix: do not let a large write wrap around the size
 check of an output buffer

---
 src/EmitterOutput.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EmitterOutput.cc b/src/EmitterOutput.cc
index 7cc330d..eca13b4 100644
--- a/src/EmitterOutput.cc
+++ b/src/EmitterOutput.cc
@@ -88,7 +88,7 @@ namespace libvariant {
 	}
 
 	unsigned EmitterMemoryOutput::Write(const void *ptr, unsigned len) {
-		if (*out_length + len > length) {
+		if (*out_length > length || len > length - *out_length) {
 			throw std::length_error("Emitter memory output buffer to small.");
 		}
 		memcpy(((char*)data_ptr + *out_length), ptr, len);
-- 
2.43.0


From 7136636467de1b2d66e2f3718ed21fda68c05dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:03:45 +0000
Subject: [PATCH 11/67] fix: do not take a short read of a stream for its end

---
 src/ParserInput.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ParserInput.cc b/src/ParserInput.cc
index aca5ec8..5611884 100644
--- a/src/ParserInput.cc
+++ b/src/ParserInput.cc
@@ -68,7 +68,7 @@ namespace libvariant {
 		while (!eof && (num < len || num == 0)) {
 			unsigned to_read = buffer.size() - num - offset;
 			unsigned num_read = Read(&buffer[num + offset], to_read);
-			if (num_read < to_read) { eof = true; }
+			if (num_read == 0) { eof = true; }
 			num += num_read;
 		}
 		len = num;
-- 
2.43.0


From 74db42fb609ba6ac4bb5edb9f3cea30f32d53be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:03:45 +0000
Subject: [PATCH 12/67] fix: make room in the input buffer when the requested
 length is close to the largest

---
 src/ParserInput.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ParserInput.cc b/src/ParserInput.cc
index 5611884..5e72478 100644
--- a/src/ParserInput.cc
+++ b/src/ParserInput.cc
@@ -55,7 +55,7 @@ namespace libvariant {
 			len = num;
 			return &buffer[offset];
 		}
-		if (len + offset > buffer.size()) {
+		if (len > buffer.size() - offset) {
 			if (len > buffer.size()) {
 				std::vector<char> newbuffer(len);
 				memmove(&newbuffer[0], &buffer[offset], num);
-- 
2.43.0


From a3c9b044951fe1d2bee0a1c5858782d505d06d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:56 +0000
Subject: [PATCH 13/67] fix: do not end the program when the output fails again
 while a JSON emitter is destroyed

---
 src/JSONEmitter.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index 9389e32..3539962 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -52,7 +52,11 @@ namespace libvariant {
 	}
 
 	JSONEmitterImpl::~JSONEmitterImpl() {
-		Close();
+		try {
+			Close();
+		} catch (...) {
+			// A destructor must not throw, Close reports to those who call it.
+		}
 	}
 
 	void JSONEmitterImpl::BeginDocument() {
-- 
2.43.0


From 756aea9f2b4b8cfd03070d23d78311adecd98e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:40 +0000
Subject: [PATCH 14/67] fix: do not form a reference into the empty buffer list
 when a blob's buffers are asked for

---
 include/Variant/Blob.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Variant/Blob.h b/include/Variant/Blob.h
index 11d7bf6..285a325 100644
--- a/include/Variant/Blob.h
+++ b/include/Variant/Blob.h
@@ -40,8 +40,8 @@ namespace libvariant {
 		void *GetPtr(unsigned i) { return iov[i].iov_base; }
 		const void *GetPtr(unsigned i) const { return iov[i].iov_base; }
 		unsigned GetLength(unsigned i) const { return iov[i].iov_len; }
-		struct iovec *GetIOVec() { return &iov[0]; }
-		const struct iovec *GetIOVec() const { return &iov[0]; }
+		struct iovec *GetIOVec() { return iov.data(); }
+		const struct iovec *GetIOVec() const { return iov.data(); }
 		unsigned GetNumBuffers() const { return iov.size(); }
 		unsigned GetTotalLength() const;
 
-- 
2.43.0


From b1af8f4605f0299ab9f299365139e7f6e182f74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:32 +0000
Subject: [PATCH 15/67] fix: give a blob without data the size 0 instead of
 dereferencing a null pointer

---
 src/Variant.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 9afe852..3892f30 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1398,7 +1398,7 @@ namespace libvariant {
 		{ return *(that->blob); }
 
 		unsigned Blob::Size(const Data *that) const
-		{ return (*that->blob)->GetTotalLength(); }
+		{ return (*that->blob) ? (*that->blob)->GetTotalLength() : 0; }
 
 		int Blob::Compare(const Data *that, const Data *other) const {
 			if (Comparable(that, other)) {
-- 
2.43.0


From 01262d6ac4bd5718bfaa9113bdc9dcaca309b813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:32 +0000
Subject: [PATCH 16/67] fix: read the assigned value before creating the
 element it is assigned to, which can move it

---
 src/Variant.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 3892f30..3d914c4 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -252,7 +252,14 @@ namespace libvariant {
 		//--------------------
 
 		void VTable::Assign(const Data *that, Data *other) const
-		{ that->vtable->Copy(that, VTable::GetData(other->vtable->Resolve(other))); }
+		{
+			// Resolving other can create it, which moves the elements of the
+			// list that that is in. So take the value first.
+			Variant value;
+			that->vtable->Copy(that, VTable::GetData(&value));
+			const Data *data = VTable::GetData(&value);
+			data->vtable->Copy(data, VTable::GetData(other->vtable->Resolve(other)));
+		}
 
 		void VTable::MakeRef(const Data *that, Data *ref) const {
 			RefInit(ref, that);
-- 
2.43.0


From 1502be6e3ecc062a47c57ea7df0253b6c2520047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:32 +0000
Subject: [PATCH 17/67] fix: clear only this string, not the strings that were
 assigned from it

---
 src/Variant.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 3d914c4..9958c9c 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1071,7 +1071,7 @@ namespace libvariant {
 
 		bool String::Empty(const Data *that) const { return that->s->empty(); }
 
-		void String::Clear(Data *that) const { return that->s->clear(); }
+		void String::Clear(Data *that) const { StringInit(that, std::string()); }
 
 		int String::Compare(const Data *that, const Data *other) const {
 			if (Comparable(that, other)) {
-- 
2.43.0


From 8fc8e38dfe1222f55ab09415c33e8792af23774c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:32 +0000
Subject: [PATCH 18/67] fix: copy the path of a proxy before releasing it when
 a reference is reassigned to itself

---
 src/Variant.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 9958c9c..2456450 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1940,10 +1940,11 @@ namespace libvariant {
 
 		void ProxyInit(Data *that, Data *ref, Path::const_iterator b, Path::const_iterator e) {
 			static const Proxy proxy_vtable;
+			// that may hold the path, so copy it before destroying that
+			shared_ptr<ProxyStorage> storage(new ProxyStorage(ref, b, e));
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = &proxy_vtable;
 			that->ref_data = ref->vtable->EnsureRef(ref);
-			shared_ptr<ProxyStorage> storage(new ProxyStorage(ref, b, e));
 			that->proxy = storage.get();
 			that->storage = storage;
 		}
-- 
2.43.0


From 6eb87b5e8a2e3e4feca8b401461e954ba490ea4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:59:46 +0000
Subject: [PATCH 19/67] fix: take the default value before creating the element
 it is meant for, which can move it

---
 src/Variant.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 2456450..ead5388 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1924,8 +1924,10 @@ namespace libvariant {
 		}
 
 		Variant *Proxy::ResolveDefault(Data *that, const Data *def) const {
+			// Creating the element can move def when it is in the same list
+			Variant def_value = *VTable::GetVar(def);
 			ProxyResolveCreate(that);
-			return that->vtable->ResolveDefault(that, def);
+			return that->vtable->ResolveDefault(that, VTable::GetData(&def_value));
 		}
 
 		bool Proxy::Exists(const Data *that) const {
-- 
2.43.0


From b7c8d28a90ac5e43c1469b26a384c20bcdc12f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:22:04 +0000
Subject: [PATCH 20/67] fix: list operations at the largest index no longer
 wrap around

---
 src/Variant.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index ead5388..7dc3e02 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1166,8 +1166,8 @@ namespace libvariant {
 
 		void List::EraseIndex(Data *that, unsigned i) const
 		{
-			unsigned size = that->l->list.size();
-			if (i + 1 < size) {
+			size_t size = that->l->list.size();
+			if (i + size_t(1) < size) {
 				that->l->list.at(i).Assign(Variant::NullType);
 			} else if (i < size) {
 				that->l->list.pop_back();
@@ -1178,7 +1178,7 @@ namespace libvariant {
 			if (i < that->l->list.size()) {
 				return VariantRef(that->l->list.at(i));
 			} else if (def) {
-				that->l->list.resize(i + 1);
+				that->l->list.resize(size_t(i) + 1);
 				that->l->list.at(i) = *def;
 				return VariantRef(that->l->list.at(i));
 			} else {
@@ -1208,7 +1208,7 @@ namespace libvariant {
 
 		void List::SetIndex(Data *that, unsigned i, const Data *other) const {
 			if ( ! (i < that->l->list.size()) ) {
-				that->l->list.resize(i + 1);
+				that->l->list.resize(size_t(i) + 1);
 			}
 			other->vtable->Assign(other, VTable::GetData(&that->l->list.at(i)));
 		}
-- 
2.43.0


From 5fe807b8b8904f7fb333ac0f38361fc95fd47654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:48:10 +0000
Subject: [PATCH 21/67] fix: list indexes in path strings that do not fit are
 refused instead of truncated

---
 src/Path.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Path.cc b/src/Path.cc
index beceffe..100afae 100644
--- a/src/Path.cc
+++ b/src/Path.cc
@@ -21,7 +21,7 @@ namespace libvariant {
 			} else if (index) {
 				if (*c == ']') {
 					std::istringstream iss(frag);
-					unsigned long long i = 0;
+					unsigned i = 0;
 					if (!(iss >> i)) {
 						throw std::runtime_error("Error parsing Variant path: \"" + frag + "\" is not a number.");
 					}
-- 
2.43.0


From 69c4993092c5d05e6267c9d76395f1dc23bbee6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:57:39 +0000
Subject: [PATCH 22/67] fix: JSON numbers are written with a digit after the
 decimal point

---
 src/JSONEmitter.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index 3539962..063d284 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -136,7 +136,13 @@ namespace libvariant {
 		} else {
 			oss << std::setprecision(numeric_precision) << std::showpoint << v;
 		}
-		EmitRaw(oss.str().c_str(), oss.str().length());
+		std::string text = oss.str();
+		// The point of a JSON number must be followed by a digit
+		std::string::size_type point = text.find('.');
+		if (point != std::string::npos && (point + 1 == text.size() || text[point + 1] == 'e')) {
+			text.insert(point + 1, 1, '0');
+		}
+		EmitRaw(text.c_str(), text.length());
 	}
 
 	void JSONEmitterImpl::Emit(ConstBlobPtr b) {
-- 
2.43.0


From e99f85f5c155d89bb542ec70f13d683f15950d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:58:04 +0000
Subject: [PATCH 23/67] fix: JSON text and keys that contain a zero character
 are written completely

---
 include/Variant/Emitter.h | 3 +++
 src/Emitter.cc            | 2 +-
 src/JSONEmitter.cc        | 5 +++++
 src/JSONEmitter.h         | 1 +
 4 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/Variant/Emitter.h b/include/Variant/Emitter.h
index adff352..a6f4f28 100644
--- a/include/Variant/Emitter.h
+++ b/include/Variant/Emitter.h
@@ -63,6 +63,9 @@ namespace libvariant {
 		virtual Variant GetParams() = 0;
 		virtual void SetParam(const std::string &key, Variant value) = 0;
 		virtual void SetParams(Variant params);
+
+		/// Override where the format can represent text that contains '\0'
+		virtual void Emit(const std::string &v) { Emit(v.c_str()); }
 	};
 
 	/**
diff --git a/src/Emitter.cc b/src/Emitter.cc
index 691d0b3..63ef33f 100644
--- a/src/Emitter.cc
+++ b/src/Emitter.cc
@@ -97,7 +97,7 @@ namespace libvariant {
 	}
 
 	Emitter &Emitter::Emit(const std::string &v) {
-		impl->Emit(v.c_str());
+		impl->Emit(v);
 		return *this;
 	}
 
diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index 063d284..c8cbad7 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -111,6 +111,11 @@ namespace libvariant {
 		EmitString(v, strlen(v));
 	}
 
+	void JSONEmitterImpl::Emit(const std::string &v) {
+		CheckSeparator();
+		EmitString(v.data(), v.length());
+	}
+
 	void JSONEmitterImpl::Emit(intmax_t v) {
 		CheckSeparator();
 		std::ostringstream oss;
diff --git a/src/JSONEmitter.h b/src/JSONEmitter.h
index f5a2fb1..0bebf3e 100644
--- a/src/JSONEmitter.h
+++ b/src/JSONEmitter.h
@@ -71,6 +71,7 @@ namespace libvariant {
 		virtual void EmitTrue();
 		virtual void EmitFalse();
 		virtual void Emit(const char *v);
+		virtual void Emit(const std::string &v);
 		virtual void Emit(intmax_t v);
 		virtual void Emit(uintmax_t v);
 		virtual void Emit(double v);
-- 
2.43.0


From ea1f6fc208eb1c9d90874fee0899031820932d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:58:10 +0000
Subject: [PATCH 24/67] fix: JSON output to a target that takes no more data
 reports an error instead of hanging

---
 src/JSONEmitter.cc | 14 +++++++++++---
 src/JSONEmitter.h  |  1 +
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index c8cbad7..fcefa1d 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -168,7 +168,7 @@ namespace libvariant {
 		if (buffer_len > 0) {
 			unsigned num_written = 0;
 			while (num_written < buffer_len) {
-				num_written += output->Write(&buffer[num_written], buffer_len - num_written);
+				num_written += WriteSome(&buffer[num_written], buffer_len - num_written);
 			}
 			buffer_len = 0;
 		}
@@ -244,7 +244,7 @@ namespace libvariant {
 			memset(&buffer[buffer_len], ' ', BUFFER_THRESHOLD);
 			unsigned num_written = 0;
 			while (num_written < indent) {
-				num_written += output->Write(&buffer[buffer_len], min(indent - num_written, BUFFER_THRESHOLD));
+				num_written += WriteSome(&buffer[buffer_len], min(indent - num_written, BUFFER_THRESHOLD));
 			}
 		} else {
 			if (indent + buffer_len > MAX_BUFFER_LEN) {
@@ -290,6 +290,14 @@ namespace libvariant {
 		EmitRaw("\"");
 	}
 
+	unsigned JSONEmitterImpl::WriteSome(const char *text, unsigned len) {
+		unsigned num_written = output->Write(text, len);
+		if (num_written == 0) {
+			throw std::runtime_error("JSONEmitter: The output does not take any more data.");
+		}
+		return num_written;
+	}
+
 	void JSONEmitterImpl::EmitRaw(const char *text) {
 		EmitRaw(text, strlen(text));
 	}
@@ -298,7 +306,7 @@ namespace libvariant {
 			Flush();
 			unsigned num_written = 0;
 			while (num_written < len) {
-				num_written += output->Write(&text[num_written], len - num_written);
+				num_written += WriteSome(&text[num_written], len - num_written);
 			}
 		} else {
 			if (len + buffer_len > MAX_BUFFER_LEN) {
diff --git a/src/JSONEmitter.h b/src/JSONEmitter.h
index 0bebf3e..c5fb26f 100644
--- a/src/JSONEmitter.h
+++ b/src/JSONEmitter.h
@@ -90,6 +90,7 @@ namespace libvariant {
 		void EmitString(const char *text, unsigned len);
 		void EmitRaw(const char *text);
 		void EmitRaw(const char *text, unsigned len);
+		unsigned WriteSome(const char *text, unsigned len);
 
 		shared_ptr<EmitterOutput> output;
 		bool pretty;
-- 
2.43.0


From 99ee9e658a38716c28870380f138eee7ec1e6f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:14 +0000
Subject: [PATCH 25/67] fix: a JSON pointer index with a sign, spaces or
 leading zeros or out of range named some element

---
 src/Extensions.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 35eb6a1..3dec05f 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -26,6 +26,7 @@
 #include <Variant/Path.h>
 #include <stdlib.h>
 #include <ctype.h>
+#include <limits>
 #include <set>
 
 using namespace std;
@@ -330,12 +331,15 @@ namespace libvariant {
 	};
 
 	static bool IsIndex(const std::string &str, uintmax_t &index) {
-		const char *b = str.c_str();
-		char *e = 0;
-		unsigned long long v = strtoull(b, &e, 10);
-		if (e == b) { return false; }
-		while (e != 0 && *e != '\0' && isspace(*e)) { ++e; }
-		if (e == 0 || *e != '\0') { return false; }
+		// RFC6901: digits without leading zeros
+		if (str.empty() || (str.size() > 1 && str[0] == '0')) { return false; }
+		uintmax_t v = 0;
+		for (std::string::size_type i = 0; i < str.size(); ++i) {
+			if (str[i] < '0' || str[i] > '9') { return false; }
+			v = v * 10 + (str[i] - '0');
+			// Lists cannot be that long
+			if (v > std::numeric_limits<unsigned>::max()) { return false; }
+		}
 		index = v;
 		return true;
 	}
-- 
2.43.0


From fea78b0132673f36f146f6a0a1f525e71e810940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:14 +0000
Subject: [PATCH 26/67] fix: adding past the end of a list with a JSON pointer
 wrote outside of the list

---
 src/Extensions.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 3dec05f..40f0f52 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -439,9 +439,8 @@ namespace libvariant {
 			if (is_last) {
 				switch (op.op) {
 				case OP_ADD:
-					if (v.Contains(index)) {
-						op.old_value = v.Get(index);
-						op.replaced = true;
+					if (index > v.Size()) {
+						throw std::runtime_error("Attempting to add past the end of an array");
 					}
 					v.AsList().insert(v.ListBegin()+index, op.value);
 					op.success = true;
-- 
2.43.0


From e200a401b2f06da9b90f8a1882c44489d042098e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:14 +0000
Subject: [PATCH 27/67] fix: a JSON pointer could not remove elements of lists

---
 src/Extensions.cc | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 40f0f52..1885670 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -446,8 +446,8 @@ namespace libvariant {
 					op.success = true;
 					return v.At(index);
 				case OP_REMOVE:
-					op.value = v.At(component);
-					v.Erase(index);
+					op.value = v.Get(index);
+					v.AsList().erase(v.ListBegin()+index);
 					op.success = true;
 					return v.At(index);
 				case OP_TEST:
@@ -616,7 +616,21 @@ namespace libvariant {
 				}
 				break;
 			case OP_REMOVE:
-				v.ErasePath(p.path);
+				{
+					Path path = p.path;
+					if (path.size() > 0) {
+						PathElement elem = path.back();
+						path.pop_back();
+						VariantRef r = v.AtPath(path);
+						if (r.IsList()) {
+							r.AsList().erase(r.ListBegin()+elem.AsUnsigned());
+						} else {
+							r.Erase(elem.AsString());
+						}
+					} else {
+						v.ErasePath(path);
+					}
+				}
 				break;
 			case OP_TEST:
 			case OP_GET:
-- 
2.43.0


From 41710555da02c47c4106ea4313f5b2999c625b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:14 +0000
Subject: [PATCH 28/67] fix: undoing a replaced list element of a failed JSON
 patch inserted it a second time

---
 src/Extensions.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 1885670..684bd5e 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -312,7 +312,8 @@ namespace libvariant {
 		OP_ADD,
 		OP_REMOVE,
 		OP_TEST,
-		OP_GET
+		OP_GET,
+		OP_REPLACE // only to undo
 	};
 
 	struct Operation_t {
@@ -632,6 +633,9 @@ namespace libvariant {
 					}
 				}
 				break;
+			case OP_REPLACE:
+				v.SetPath(p.path, p.value);
+				break;
 			case OP_TEST:
 			case OP_GET:
 				throw std::runtime_error("Unable to perform operation here");
@@ -668,7 +672,7 @@ namespace libvariant {
 				} else {
 					return false;
 				}
-				undo->push_back(Patch_t(OP_ADD, op.path, op.value));
+				undo->push_back(Patch_t(OP_REPLACE, op.path, op.value));
 				return op.success;
 			} else if (oper == "move") {
 				op = Operation_t(OP_REMOVE, diff.Get("from").AsString());
-- 
2.43.0


From 42818015cda5b6dab882d4c8fa8d75294342c0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:14 +0000
Subject: [PATCH 29/67] fix: a failed move with JSON pointers lost a list
 element and the reason

---
 src/Extensions.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 684bd5e..93985e1 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -524,14 +524,15 @@ namespace libvariant {
 		try {
 			JSONPointerOp(op.pointer, v, op);
 			Variant data = op.value;
-			Path path = op.path;
 			try {
 				op = Operation_t(OP_ADD, dst);
 				op.value = data;
 				JSONPointerOp(op.pointer, v, op);
-			} catch (const std::exception &e) {
-				v.SetPath(path, data);
-				throw e;
+			} catch (const std::exception &) {
+				Operation_t restore(OP_ADD, src);
+				restore.value = data;
+				JSONPointerOp(restore.pointer, v, restore);
+				throw;
 			}
 		} catch (const std::exception &e) {
 			std::ostringstream oss;
-- 
2.43.0


From 6b32d974b143549375494552b84aceb995031a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:14 +0000
Subject: [PATCH 30/67] fix: a patched document shared the containers of the
 patch and of copied values

---
 src/Extensions.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 93985e1..dfb0ec4 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -652,7 +652,7 @@ namespace libvariant {
 		try {
 			if (oper == "add") {
 				op = Operation_t(OP_ADD, diff.Get("path").AsString());
-				op.value = diff.Get("value");
+				op.value = diff.Get("value").Copy();
 				JSONPointerOp(op.pointer, v, op);
 				if (op.replaced) {
 					undo->push_back(Patch_t(OP_ADD, op.path, op.old_value));
@@ -669,7 +669,7 @@ namespace libvariant {
 				op = Operation_t(OP_GET, diff.Get("path").AsString());
 				VariantRef r = JSONPointerOp(op.pointer, v, op);
 				if (r.Exists()) {
-					r = diff.Get("value");
+					r = diff.Get("value").Copy();
 				} else {
 					return false;
 				}
@@ -692,7 +692,7 @@ namespace libvariant {
 			} else if (oper == "copy") {
 				op = Operation_t(OP_GET, diff.Get("from").AsString());
 				JSONPointerOp(op.pointer, v, op);
-				Variant data = op.value;
+				Variant data = op.value.Copy();
 				op = Operation_t(OP_ADD, diff.Get("path").AsString());
 				op.value = data;
 				JSONPointerOp(op.pointer, v, op);
-- 
2.43.0


From d1ff3798c38b102c2311b3d9a107fdeb5cf330ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:14 +0000
Subject: [PATCH 31/67] fix: JSON pointers made from paths did not escape ~ and
 /

---
 src/Extensions.cc | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index dfb0ec4..96f783c 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -297,6 +297,8 @@ namespace libvariant {
 						ret.append(c, 1);
 					}
 					++c;
+				} else {
+					ret.append("~");
 				}
 				break;
 			default:
@@ -576,13 +578,31 @@ namespace libvariant {
 		}
 	}
 
+	static std::string JSONPointerEscape(const std::string &fragment) {
+		std::string ret;
+		for (std::string::const_iterator i(fragment.begin()), e(fragment.end()); i != e; ++i) {
+			switch (*i) {
+			case '~':
+				ret.append("~0");
+				break;
+			case '/':
+				ret.append("~1");
+				break;
+			default:
+				ret.append(1, *i);
+				break;
+			}
+		}
+		return ret;
+	}
+
 	std::string FormJSONPointer(const Path &path) {
 		std::ostringstream ret;
 		for (Path::const_iterator i(path.begin()), e(path.end()); i != e; ++i) {
 			if (i->IsNumber()) {
 				ret << "/" << i->AsUnsigned();
 			} else {
-				ret << "/" << i->AsString();
+				ret << "/" << JSONPointerEscape(i->AsString());
 			}
 		}
 		return ret.str();
-- 
2.43.0


From e30487a564bb99d9a9d12f7dcd1a8e8e87c93aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:14 +0000
Subject: [PATCH 32/67] fix: the difference of lists removed the wrong elements

---
 src/Extensions.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 96f783c..4faea07 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -793,9 +793,12 @@ namespace libvariant {
 			case Variant::ListType:
 				{
 					uintmax_t len = std::max<uintmax_t>(src.Size(), dst.Size());
+					uintmax_t dst_len = dst.Size();
 					for (uintmax_t i = 0; i < len; ++i) {
-						path.push_back(PathElement(i));
-							JSONDiffRef(src.At(i), dst.At(i), diff, path);
+						// Surplus elements are removed from the end
+						uintmax_t j = (i < dst_len ? i : len - 1 - (i - dst_len));
+						path.push_back(PathElement(j));
+							JSONDiffRef(src.At(j), dst.At(j), diff, path);
 						path.pop_back();
 					}
 				}
-- 
2.43.0


From 2e53248918bd33ecc647941b8f2062181dfac0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:55:55 +0000
Subject: [PATCH 33/67] fix: guessing the format of input with nothing but
 white space read past its end

---
 src/GuessFormat.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GuessFormat.cc b/src/GuessFormat.cc
index d37734e..48831da 100644
--- a/src/GuessFormat.cc
+++ b/src/GuessFormat.cc
@@ -22,7 +22,7 @@ namespace libvariant {
 			if (i >= len) {
 				unsigned l = i+1;
 				ptr = (const char*)in->GetPtr(l);
-				if (!ptr) {
+				if (!ptr || l <= i) {
 					throw std::runtime_error(
 							"libvariant::GuessFormat: Unable to guess input format, unexpected end of input."
 							);
-- 
2.43.0


From 4a845e6c6cd3dfb272cf4754f675c12851778273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:55:55 +0000
Subject: [PATCH 34/67] fix: the guessed type of the largest signed integer
 depended on an earlier error

---
 src/GuessScalar.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GuessScalar.cc b/src/GuessScalar.cc
index 5094271..56ea479 100644
--- a/src/GuessScalar.cc
+++ b/src/GuessScalar.cc
@@ -80,6 +80,7 @@ namespace libvariant {
 				action->Scalar(p, false, anchor, tag);
 			} else if (match[MATCH_INT10].rm_so != -1) {
 				long long val;
+				errno = 0;
 				val = strtoll(&value[match[MATCH_INT10].rm_so], 0, 10);
 				if (val == LLONG_MAX && errno == ERANGE) {
 					unsigned long long v;
-- 
2.43.0


From 9d3231488d1d99c806edbb77623f00ca6e18181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:10:44 +0000
Subject: [PATCH 35/67] fix: scanning a bundle header line looks at no
 character past its end

---
 src/BundleHdrParser.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/BundleHdrParser.cc b/src/BundleHdrParser.cc
index 6030449..94078e2 100644
--- a/src/BundleHdrParser.cc
+++ b/src/BundleHdrParser.cc
@@ -47,7 +47,7 @@ namespace libvariant {
 		const char *e = line + line_len;
 		key.clear();
 		value.clear();
-		while (isspace(*c) && c != e) { ++c; }
+		while (c != e && isspace((unsigned char)*c)) { ++c; }
 		loop = true;
 		while (loop && c != e) {
 			switch (*c) {
@@ -65,12 +65,12 @@ namespace libvariant {
 			}
 		}
 		key.push_back('\0');
-		while (isspace(*c) && c != e) { ++c; }
-		if (*c != ':') {
+		while (c != e && isspace((unsigned char)*c)) { ++c; }
+		if (c == e || *c != ':') {
 			return false;
 		}
 		++c;
-		while (isspace(*c) && c != e) { ++c; }
+		while (c != e && isspace((unsigned char)*c)) { ++c; }
 		while (c != e && *c != '#') {
 			value.push_back(*c);
 			++c;
-- 
2.43.0


From 61e6b11e3876598c9237092bf7787466307b545d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:10:44 +0000
Subject: [PATCH 36/67] fix: the last line of a bundle header is read even if
 it does not end with a line feed

---
 src/BundleHdrParser.cc | 9 +++++++--
 src/BundleHdrParser.h  | 1 +
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/BundleHdrParser.cc b/src/BundleHdrParser.cc
index 94078e2..9ba0ff5 100644
--- a/src/BundleHdrParser.cc
+++ b/src/BundleHdrParser.cc
@@ -20,11 +20,14 @@ namespace libvariant {
 		while (true) {
 			line = (const char *)input->GetPtr(len);
 			if (!line || line_len == len) {
-				line = 0;
+				// The last line may lack its line feed
+				line_end = line_len;
+				if (line_len == 0) { line = 0; }
 				return;
 			}
 			for (;line_len < len; ++line_len) {
 				if (line[line_len] == '\n') {
+					line_end = line_len + 1;
 					return;
 				}
 			}
@@ -33,7 +36,7 @@ namespace libvariant {
 	}
 
 	void BundleHdrParserImpl::RetireLine() {
-		input->Release(line_len + 1);
+		input->Release(line_end);
 		line = 0;
 		line_len = 0;
 	}
@@ -180,6 +183,7 @@ namespace libvariant {
 		state = START;
 		line = 0;
 		line_len = 0;
+		line_end = 0;
 		key.clear();
 		value.clear();
 		list.clear();
@@ -191,6 +195,7 @@ namespace libvariant {
 		state(START),
 		line(0),
 		line_len(0),
+		line_end(0),
 		line_num(0)
 	{}
 
diff --git a/src/BundleHdrParser.h b/src/BundleHdrParser.h
index f6bf331..07af635 100644
--- a/src/BundleHdrParser.h
+++ b/src/BundleHdrParser.h
@@ -54,6 +54,7 @@ namespace libvariant {
 		State_t state;
 		const char *line;
 		unsigned line_len;
+		unsigned line_end; // length including the line feed
 		std::vector<char> key;
 		std::vector<char> value;
 		std::deque<char*> list;
-- 
2.43.0


From 179b6ee41ae3f315744ce4835ba92b0c92536e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:10:44 +0000
Subject: [PATCH 37/67] fix: a bundle header list of one element followed by
 blanks or a comment is read as a list

---
 src/BundleHdrParser.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/BundleHdrParser.cc b/src/BundleHdrParser.cc
index 9ba0ff5..3f3e8c9 100644
--- a/src/BundleHdrParser.cc
+++ b/src/BundleHdrParser.cc
@@ -117,8 +117,10 @@ namespace libvariant {
 							continue;
 						}
 						// Remove whitespace from end of value
-						char *e = strchr(&value[0], '\0');
-						while (--e >= &value[0] && isspace(*e)) { *e = '\0'; }
+						while (value.size() > 1 && isspace((unsigned char)value[value.size()-2])) {
+							value.pop_back();
+							value.back() = '\0';
+						}
 						state = VALUE;
 						TopAction()->Scalar(this, &key[0], strlen(&key[0]), 0, 0);
 						key.clear();
-- 
2.43.0


From 6a92b108432ef1ed6e023efda3dfdf88d04aab63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:10:44 +0000
Subject: [PATCH 38/67] fix: elements of a bundle header list are not read from
 a cleared buffer

---
 src/BundleHdrParser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BundleHdrParser.cc b/src/BundleHdrParser.cc
index 3f3e8c9..a019d31 100644
--- a/src/BundleHdrParser.cc
+++ b/src/BundleHdrParser.cc
@@ -142,8 +142,8 @@ namespace libvariant {
 								GuessScalar(&value[0], strlen(&value[0]), 0, 0, this, TopAction());
 								break;
 							} else {
+								// list points into value
 								state = LIST;
-								value.clear();
 								TopAction()->BeginList(this, -1, 0, 0);
 								break;
 							}
-- 
2.43.0


From 54469d03b94055e53fbb1c86b787e07678b53a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:10:44 +0000
Subject: [PATCH 39/67] fix: destroying a bundle header emitter whose output
 fails does not end the program

---
 src/BundleHdrEmitter.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/BundleHdrEmitter.cc b/src/BundleHdrEmitter.cc
index d7db891..a3d9cb8 100644
--- a/src/BundleHdrEmitter.cc
+++ b/src/BundleHdrEmitter.cc
@@ -22,7 +22,11 @@ namespace libvariant {
 
 
 	BundleHdrEmitterImpl::~BundleHdrEmitterImpl() {
-		Close();
+		try {
+			Close();
+		} catch (...) {
+			// A destructor must not throw, Close reports to those who call it.
+		}
 	}
 
 
-- 
2.43.0


From 9c07d43b8547bd435f11f6820b03c18b99f697ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:10:44 +0000
Subject: [PATCH 40/67] fix: a bundle header written to a target that takes no
 more data reports an error instead of hanging

---
 src/BundleHdrEmitter.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/BundleHdrEmitter.h b/src/BundleHdrEmitter.h
index 04b1a2b..f6a7843 100644
--- a/src/BundleHdrEmitter.h
+++ b/src/BundleHdrEmitter.h
@@ -97,7 +97,11 @@ namespace libvariant {
 		void Write(const char *str, unsigned len) {
 			unsigned num_written = 0;
 			while (num_written < len) {
-				num_written += output->Write(str + num_written, len - num_written);
+				unsigned n = output->Write(str + num_written, len - num_written);
+				if (n == 0) {
+					throw std::runtime_error("BundleHdrEmitter: The output does not take any more data.");
+				}
+				num_written += n;
 			}
 		}
 
-- 
2.43.0


From aa07f545ffb01eb241e47a84481192befff49cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:10:44 +0000
Subject: [PATCH 41/67] fix: a bundle header emitter uses the precision it is
 created with

---
 src/BundleHdrEmitter.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BundleHdrEmitter.cc b/src/BundleHdrEmitter.cc
index a3d9cb8..f29a16e 100644
--- a/src/BundleHdrEmitter.cc
+++ b/src/BundleHdrEmitter.cc
@@ -18,6 +18,9 @@ namespace libvariant {
 		state(BHE_START),
 		numeric_precision(std::numeric_limits<double>::digits10+2)
    	{
+		if (params.IsMap()) {
+			params.GetInto(numeric_precision, "precision", numeric_precision);
+		}
 	}
 
 
-- 
2.43.0


From b9b04801e7854c611d8a21f15ccccfda05b74ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:10:44 +0000
Subject: [PATCH 42/67] fix: a payload length inside a list is written, and
 writing it ends

---
 src/Payload.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index 4787b82..3599be7 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -75,8 +75,8 @@ namespace libvariant {
 					   	(on_data ? data_i + 1 : data_i), on_data,
 					   	state);
 			}
-			if (on_len_path && len_i->AsUnsigned() < index) {
-				while (len_i->AsUnsigned() < index) {
+			if (on_len_path && len_i->AsUnsigned() >= index) {
+				while (len_i->AsUnsigned() > index) {
 					state.e.EmitNull();
 					++index;
 				}
-- 
2.43.0


From 679ae3c90e341cc4f57a808224d2dcf43dafdd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:10:44 +0000
Subject: [PATCH 43/67] fix: the number of entries announced for a map with a
 payload below it is the number written

---
 src/Payload.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index 3599be7..776bec1 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -94,7 +94,7 @@ namespace libvariant {
 		case Variant::MapType:
 			length = v.Size();
 			if (on_len_path && !v.Contains(len_i->AsString())) { length++; }
-			if (on_data_path && v.Contains(data_i->AsString())) { length--; }
+			if (on_data_path && data_i + 1 == state.data_end && v.Contains(data_i->AsString())) { length--; }
 			state.e.BeginMap(length);
 			for (Variant::ConstMapIterator i(v.MapBegin()), e(v.MapEnd()); i != e; ++i) {
 				bool on_len = on_len_path && i->first == len_i->AsString();
-- 
2.43.0


From 8fb4716e7cd456e9f4d1b1b53402bc82a676a812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:10:44 +0000
Subject: [PATCH 44/67] fix: a header is followed by its zero byte whatever an
 output takes at once, and a full output is an error

---
 src/Payload.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index 776bec1..1608188 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -175,8 +175,12 @@ namespace libvariant {
 		std::vector<char> buf(num, '\n');
 		buf.push_back('\0');
 		unsigned written = 0;
-		while (written < num) {
-			written += out->Write(&buf[written], buf.size() - written);
+		while (written < buf.size()) {
+			unsigned n = out->Write(&buf[written], buf.size() - written);
+			if (n == 0) {
+				throw std::runtime_error("libvariant: The output does not take any more data.");
+			}
+			written += n;
 		}
 
 		if (payload_exists && !ignore_payload) {
@@ -186,6 +190,9 @@ namespace libvariant {
 				char *ptr = (char*)blob->GetPtr(slab);
 				while (to_write > 0) {
 					unsigned num = out->Write(ptr, to_write);
+					if (num == 0) {
+						throw std::runtime_error("libvariant: The output does not take any more data.");
+					}
 					ptr += num;
 					to_write -= num;
 				}
-- 
2.43.0


From c9846c6ab35e851cc8e3a64aa46e1a3bc750d269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:10:44 +0000
Subject: [PATCH 45/67] fix: looking for the end of a header before a payload
 stays within the input

---
 src/Payload.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index 1608188..56b22e0 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -222,7 +222,7 @@ namespace libvariant {
 		const void *retptr = base_input->GetPtr(len);
 		if (retptr) {
 			const char *ptr = (const char*)retptr;
-			if (ptr[scanned_to] != '\0') {
+			if (scanned_to < len && ptr[scanned_to] != '\0') {
 				scanned_to += strnlen(&ptr[scanned_to], len-scanned_to);
 
 			}
-- 
2.43.0


From 1d9287288556189fe8ab9f5b54bf22e988db91c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:14:46 +0000
Subject: [PATCH 46/67] fix: multipleOf 0 is a schema error and not a division
 by zero

---
 src/Schema.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 8ff405c..95c5379 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -699,7 +699,7 @@ namespace libvariant {
 		}
 		AutoSchemaPath spath(ctx, multkey);
 		Variant multipleof = schema[multkey];
-		if (!multipleof.IsNumber() || multipleof < 0) {
+		if (!multipleof.IsNumber() || multipleof <= 0) {
 			std::ostringstream oss;
 			oss << "\"" << multkey << "\" must be a positive number";
 			ctx.AddSchemaError(oss.str());
-- 
2.43.0


From c3b713c500fcfa84dee5ec404a855104b489e351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:14:46 +0000
Subject: [PATCH 47/67] fix: negative numbers that are not a multiple are
 refused, and negative multiples of unsigned numbers accepted

---
 src/Schema.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 95c5379..65736c3 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -705,7 +705,16 @@ namespace libvariant {
 			ctx.AddSchemaError(oss.str());
 			return;
 		}
-		Variant mod = data % multipleof;
+		// The remainder has the sign of the data, and unsigned numbers have none.
+		Variant magnitude = data;
+		if (data < 0) {
+			if (data.IsFloat()) {
+				magnitude = -data.AsLongDouble();
+			} else {
+				magnitude = -static_cast<uintmax_t>(data.AsInt());
+			}
+		}
+		Variant mod = magnitude % multipleof;
 		if (data.IsFloat() || multipleof.IsFloat()) {
 			// We have an issue here of the fact that many numeric values in base 10 are
 			// not exactly represented in binary floating point.
-- 
2.43.0


From c6444bc7ef520b6038f7fea16fe5a3c05f454d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:14:46 +0000
Subject: [PATCH 48/67] fix: an @ in the path, query or fragment of a URI does
 not belong to the authority

---
 src/SchemaLoader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index f688427..cab319b 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -192,7 +192,7 @@ namespace libvariant {
 			memset(&regex, 0, sizeof(regex_t));
 			int ret = regcomp(&regex,
 "^[[:space:]]*([^:\\/?#]+:)?" // PROTOCOL
-"(//([^:@]*(:[^:@]*)?@)?([^:/?#]*)(:[0-9]*)?)?" // (//((user(:host)@)(hostname)(:port)))
+"(//([^:@/?#]*(:[^:@/?#]*)?@)?([^:/?#]*)(:[0-9]*)?)?" // (//((user(:host)@)(hostname)(:port)))
 "([^?#]*)" // PATHNAME
 "(\\?[^#]*)?" // SEARCH
 "(#[^[:space:]]*)?[[:space:]]*$" // HASH
-- 
2.43.0


From 415db1aaaf75afb1f8fc2620fc44b18caca8e46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:14:46 +0000
Subject: [PATCH 49/67] fix: only two hexadecimal digits after a percent sign
 are an escape in a URI

---
 src/SchemaLoader.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index cab319b..9f15174 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -27,6 +27,7 @@
 #include <stdexcept>
 #include <sstream>
 #include <string.h>
+#include <ctype.h>
 #ifdef ENABLE_CURL
 #include <curl/curl.h>
 #endif
@@ -98,12 +99,10 @@ namespace libvariant {
 					c = e;
 				} else {
 					char hex[3] = { *(c+1), *(c+2), 0 };
-					char *endp = 0;
-					long hexv = strtol(hex, &endp, 16);
-					if (*endp != 0) {
+					if (!isxdigit((unsigned char)hex[0]) || !isxdigit((unsigned char)hex[1])) {
 						ret.append(c, 3);
 					} else {
-						ret.append(1, (char)hexv);
+						ret.append(1, (char)strtol(hex, 0, 16));
 					}
 					c += 3;
 				}
-- 
2.43.0


From a3a0c54b5a74fd83ce607a654afe2dd238f3e0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:16:08 +0000
Subject: [PATCH 50/67] fix: adding the defaults of a recursive schema ends

---
 src/Schema.cc | 57 ++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 12 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 65736c3..6bb19ac 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -849,20 +849,50 @@ namespace libvariant {
 		return ctx.result;
 	}
 
-	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader);
+	// A recursive schema describes data of any depth. A reference is not followed again while
+	// it is being followed, unless for a further part of the data as it was at the beginning.
+	struct FollowedRef {
+		bool Has(const std::string &r) const { return ref == r || (prev && prev->Has(r)); }
+		std::string ref;
+		const FollowedRef *prev;
+	};
+
+	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader,
+			Variant original, const FollowedRef *followed);
 
-	void AddSchemaListDefaultsImpl(VariantRef slist, VariantRef data, SchemaLoader *loader) {
+	void AddSchemaListDefaultsImpl(VariantRef slist, VariantRef data, SchemaLoader *loader,
+			Variant original, const FollowedRef *followed)
+	{
 		if (slist.Exists() && slist.IsList()) {
 			for (Variant::ListIterator i(slist.ListBegin()), e(slist.ListEnd()); i != e; ++i) {
-				AddSchemaDefaultsImpl(*i, data, loader);
+				AddSchemaDefaultsImpl(*i, data, loader, original, followed);
 			}
 		}
 	}
 
-	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader) {
+	void AddSchemaPartDefaultsImpl(Variant schema, VariantRef part, SchemaLoader *loader,
+			Variant original, const FollowedRef *followed)
+	{
+		AddSchemaDefaultsImpl(schema, part, loader, original, original.IsNull() ? followed : 0);
+	}
+
+	Variant PartOf(Variant original, const std::string &key) {
+		return original.IsMap() && original.Contains(key) ? original.Get(key) : Variant();
+	}
+
+	Variant PartOf(Variant original, unsigned index) {
+		return original.IsList() && original.Contains(index) ? original.Get(index) : Variant();
+	}
+
+	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader,
+			Variant original, const FollowedRef *followed)
+	{
 		if (!schema.IsMap()) { return; }
 		if (schema.Contains("$ref") && schema["$ref"].IsString()) {
-			AddSchemaDefaultsImpl(loader->GetSchema(schema["$ref"].AsString()), data, loader);
+			FollowedRef here = { schema["$ref"].AsString(), followed };
+			if (!followed || !followed->Has(here.ref)) {
+				AddSchemaDefaultsImpl(loader->GetSchema(here.ref), data, loader, original, &here);
+			}
 		}
 		if (schema.Contains("default") && (!data.Exists() || data.IsNull())) {
 			data = schema["default"].Copy();
@@ -872,22 +902,25 @@ namespace libvariant {
 			for (Variant::MapIterator i(schema["properties"].MapBegin()), e(schema["properties"].MapEnd());
 					i != e; ++i)
 			{
-				AddSchemaDefaultsImpl(i->second, data.At(i->first), loader);
+				AddSchemaPartDefaultsImpl(i->second, data.At(i->first), loader,
+						PartOf(original, i->first), followed);
 			}
 		}
 		if (schema.Contains("items") && (!data.Exists() || data.IsList())) {
 			if (schema["items"].IsList()) {
 				for (unsigned i = 0; i < schema["items"].Size(); ++i)
 				{
-					AddSchemaDefaultsImpl(schema["items"][i], data[i], loader);
+					AddSchemaPartDefaultsImpl(schema["items"][i], data[i], loader,
+							PartOf(original, i), followed);
 				}
 			} else {
-				AddSchemaDefaultsImpl(schema["items"], data[0], loader);
+				AddSchemaPartDefaultsImpl(schema["items"], data[0], loader,
+						PartOf(original, 0u), followed);
 			}
 		}
-		AddSchemaListDefaultsImpl(schema["allOf"], data, loader);
-		AddSchemaListDefaultsImpl(schema["oneOf"], data, loader);
-		AddSchemaListDefaultsImpl(schema["anyOf"], data, loader);
+		AddSchemaListDefaultsImpl(schema["allOf"], data, loader, original, followed);
+		AddSchemaListDefaultsImpl(schema["oneOf"], data, loader, original, followed);
+		AddSchemaListDefaultsImpl(schema["anyOf"], data, loader, original, followed);
 	}
 
 	void AddSchemaDefaults(Variant schema, VariantRef data, SchemaLoader *loader) {
@@ -899,7 +932,7 @@ namespace libvariant {
 			schema = lloader.GetSchema(schema.AsString());
 		}
 		lloader.AddSchema("", schema);
-		AddSchemaDefaultsImpl(schema, data, &lloader);
+		AddSchemaDefaultsImpl(schema, data, &lloader, data.Exists() ? data.Copy() : Variant(), 0);
 	}
 
 	void InsertIndent(std::ostream &os, unsigned indent) {
-- 
2.43.0


From f7873c78fa8bda74174ff58f4b52b3b0326b9f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:45:34 +0000
Subject: [PATCH 51/67] fix: a handler that finishes together with the one
 below stays alive until it returns

---
 src/VariantParsing.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index 4bb32f0..c1d9a34 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -121,13 +121,15 @@ namespace libvariant {
 		}
 
 		void Finish(ParserImpl *p) {
+			// Passing the value on may finish the handler below as well, so
+			// leave the stack first and stay alive until the end.
+			shared_ptr<ParserActions> self = p->PopAction();
+			done = true;
 			if (base) {
 				base->SetValue(p, result, (anchor.empty() ? 0 : anchor.c_str()));
 			} else {
 				state->result = result;
 			}
-			done = true;
-			p->PopAction();
 		}
 
 		int Level() {
-- 
2.43.0


From 785b2170bad9870aab1f35f4300f725be5849b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:45:34 +0000
Subject: [PATCH 52/67] fix: an XML property list whose only value is a text or
 a number is read

---
 src/XMLPLISTParser.cc | 28 ++++++++++++++--------------
 src/XMLPLISTParser.h  |  4 ++--
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index cfbaf33..466bede 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -96,10 +96,10 @@ namespace libvariant {
 						loop = BeginElement(TopAction(), StringToNode(name));
 						break;
 					case XML_READER_TYPE_END_ELEMENT:
-						loop = EndElement(TopAction(), StringToNode(name));
+						loop = EndElement(StringToNode(name));
 						break;
 					case XML_READER_TYPE_TEXT:
-						loop = ProcessText(TopAction());
+						loop = ProcessText();
 						break;
 					case XML_READER_TYPE_END_ENTITY:
 					case XML_READER_TYPE_ATTRIBUTE:
@@ -221,7 +221,7 @@ namespace libvariant {
 		}
 	}
 
-	bool XMLPLISTParserImpl::ProcessText(ParserActions *action) {
+	bool XMLPLISTParserImpl::ProcessText() {
 		switch (statestack.back()) {
 		case NullNode:
 		case RootNode:
@@ -239,9 +239,9 @@ namespace libvariant {
 				if (val == LLONG_MAX && errno == ERANGE) {
 					uintmax_t v;
 					v = strtoull(value, 0, 0);
-					action->Scalar(this, v, 0, 0);
+					TopAction()->Scalar(this, v, 0, 0);
 				} else {
-					action->Scalar(this, val, 0, 0);
+					TopAction()->Scalar(this, val, 0, 0);
 				}
 			}
 			return true;
@@ -250,14 +250,14 @@ namespace libvariant {
 				empty = false;
 				const char *value = (const char*)xmlTextReaderConstValue(reader);
 				double val = strtod(value, 0);
-				action->Scalar(this, val, 0, 0);
+				TopAction()->Scalar(this, val, 0, 0);
 			}
 			return true;
 		case StringNode:
 			{
 				empty = false;
 				const char *value = (const char*)xmlTextReaderConstValue(reader);
-				action->Scalar(this, value, strlen(value), 0, 0);
+				TopAction()->Scalar(this, value, strlen(value), 0, 0);
 			}
 			return true;
 		case BlobNode:
@@ -272,14 +272,14 @@ namespace libvariant {
 					throw std::bad_alloc();
 				}
 				unsigned len = Base64Decode(data, value, length);
-				action->Scalar(this, Blob::CreateFree(data, len), 0, 0);
+				TopAction()->Scalar(this, Blob::CreateFree(data, len), 0, 0);
 			}
 			return true;
 		case KeyNode:
 			{
 				empty = false;
 				const char *value = (const char*)xmlTextReaderConstValue(reader);
-				action->Scalar(this, value, strlen(value), 0, 0);
+				TopAction()->Scalar(this, value, strlen(value), 0, 0);
 			}
 			return true;
 		default:
@@ -290,7 +290,7 @@ namespace libvariant {
 
 	}
 
-	bool XMLPLISTParserImpl::EndElement(ParserActions *action, State_t nodetype) {
+	bool XMLPLISTParserImpl::EndElement(State_t nodetype) {
 		if (statestack.back() != nodetype) {
 			err = true;
 			errorstr = "libvariant XML PLIST parser in inconsistent state";
@@ -319,16 +319,16 @@ namespace libvariant {
 			return false;
 		case StringNode:
 		case KeyNode:
-			if (empty) { action->Scalar(this, "", 0, 0, 0); }
+			if (empty) { TopAction()->Scalar(this, "", 0, 0, 0); }
 			return false;
 		case RootNode:
-			action->EndDocument(this);
+			TopAction()->EndDocument(this);
 			return false;
 		case MapNode:
-			action->EndMap(this);
+			TopAction()->EndMap(this);
 			return false;
 		case ListNode:
-			action->EndList(this);
+			TopAction()->EndList(this);
 			return false;
 		default:
 			err = true;
diff --git a/src/XMLPLISTParser.h b/src/XMLPLISTParser.h
index 6802ef0..237adb6 100644
--- a/src/XMLPLISTParser.h
+++ b/src/XMLPLISTParser.h
@@ -59,8 +59,8 @@ namespace libvariant {
 		virtual void Reset();
 	private:
 		bool BeginElement(ParserActions *action, State_t nodetype);
-		bool ProcessText(ParserActions *action);
-		bool EndElement(ParserActions *action, State_t nodetype);
+		bool ProcessText();
+		bool EndElement(State_t nodetype);
 		void Close();
 		void HandleError(const char *fnname);
 
-- 
2.43.0


From 1e0120b2918d1e0699af4834ba2c36ff48f1ea6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:45:34 +0000
Subject: [PATCH 53/67] fix: strings and keys of only blanks are read from XML
 property lists

---
 src/XMLPLISTParser.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index 466bede..6ba478b 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -101,6 +101,13 @@ namespace libvariant {
 					case XML_READER_TYPE_TEXT:
 						loop = ProcessText();
 						break;
+					case XML_READER_TYPE_WHITESPACE:
+					case XML_READER_TYPE_SIGNIFICANT_WHITESPACE:
+						// Blank text counts inside of strings and keys
+						if (statestack.back() == StringNode || statestack.back() == KeyNode) {
+							loop = ProcessText();
+						}
+						break;
 					case XML_READER_TYPE_END_ENTITY:
 					case XML_READER_TYPE_ATTRIBUTE:
 					case XML_READER_TYPE_CDATA:
@@ -112,8 +119,6 @@ namespace libvariant {
 					case XML_READER_TYPE_DOCUMENT_TYPE:
 					case XML_READER_TYPE_DOCUMENT_FRAGMENT:
 					case XML_READER_TYPE_NOTATION:
-					case XML_READER_TYPE_WHITESPACE:
-					case XML_READER_TYPE_SIGNIFICANT_WHITESPACE:
 					case XML_READER_TYPE_XML_DECLARATION:
 					case XML_READER_TYPE_NONE:
 					default:
-- 
2.43.0


From 9797da56f9ed4b8cb808e692aaa97e55ded9d24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:45:34 +0000
Subject: [PATCH 54/67] fix: strings that look like another kind of scalar are
 quoted in YAML

---
 src/YAMLEmitter.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index ecbe8c4..619f408 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -26,9 +26,24 @@
 #include <limits>
 #include <cmath>
 #include "Base64.h"
+#include "GuessScalar.h"
 
 namespace libvariant {
 
+	/// Finds out if a plain scalar is read back as a string
+	class PlainStringCheck : public ParserActions {
+	public:
+		PlainStringCheck() : is_string(false) {}
+		virtual void Scalar(ParserImpl*, double, const char*, const char*) {}
+		virtual void Scalar(ParserImpl*, const char*, unsigned, const char*, const char*) { is_string = true; }
+		virtual void Scalar(ParserImpl*, bool, const char*, const char*) {}
+		virtual void Null(ParserImpl*, const char*, const char*) {}
+		virtual void Scalar(ParserImpl*, intmax_t, const char*, const char*) {}
+		virtual void Scalar(ParserImpl*, uintmax_t, const char*, const char*) {}
+		virtual void Scalar(ParserImpl*, BlobPtr, const char*, const char*) {}
+		bool is_string;
+	};
+
 	static int WriteHandler(void *data, unsigned char *buffer, size_t size) {
 		EmitterOutput *out = (EmitterOutput*)data;
 		return out->Write((const void*)buffer, size);
@@ -303,7 +318,9 @@ namespace libvariant {
 	}
 
 	void YAMLEmitterImpl::Emit(const char *v) {
-		Emit(v, ANY_SCALAR_STYLE);
+		PlainStringCheck check;
+		GuessScalar(v, strlen(v), 0, 0, 0, &check);
+		Emit(v, check.is_string ? ANY_SCALAR_STYLE : SINGLE_QUOTED_SCALAR_STYLE);
 	}
 
 	void YAMLEmitterImpl::Emit(const char *v, ScalarStyle style) {
-- 
2.43.0


From 7fb9ff387078024536422bafea092a08eb26120a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:45:45 +0000
Subject: [PATCH 55/67] fix: a blob without data is read from XML property
 lists

---
 src/XMLPLISTParser.cc | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index 6ba478b..cb094ec 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -316,11 +316,7 @@ namespace libvariant {
 			}
 			return false;
 		case BlobNode:
-			if (empty) {
-				err = true;
-				errorstr = "libvariant XML PLIST parser cannot have empty data nodes";
-				throw std::runtime_error(errorstr);
-			}
+			if (empty) { TopAction()->Scalar(this, Blob::CreateCopy("", 0), 0, 0); }
 			return false;
 		case StringNode:
 		case KeyNode:
-- 
2.43.0


From 8b817c4d7e3db5dcf4ae162ba551325529b323ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:49:08 +0000
Subject: [PATCH 56/67] fix: an empty string is quoted in YAML

---
 src/YAMLEmitter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index 619f408..4337507 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -320,7 +320,7 @@ namespace libvariant {
 	void YAMLEmitterImpl::Emit(const char *v) {
 		PlainStringCheck check;
 		GuessScalar(v, strlen(v), 0, 0, 0, &check);
-		Emit(v, check.is_string ? ANY_SCALAR_STYLE : SINGLE_QUOTED_SCALAR_STYLE);
+		Emit(v, check.is_string && *v ? ANY_SCALAR_STYLE : SINGLE_QUOTED_SCALAR_STYLE);
 	}
 
 	void YAMLEmitterImpl::Emit(const char *v, ScalarStyle style) {
-- 
2.43.0


From f8f098eb896cb0eb0ab4b1038bcdecbec3e4cba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:49:08 +0000
Subject: [PATCH 57/67] fix: an XML reader at the end of its document is done

---
 src/XMLPLISTParser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index cb094ec..5ff0133 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -392,7 +392,7 @@ namespace libvariant {
 	}
 
 	bool XMLPLISTParserImpl::Done() const {
-		return closed;
+		return closed || statestack.back() == EndState;
 	}
 
 	bool XMLPLISTParserImpl::Error() const {
-- 
2.43.0


From b6b59a615eee6e1008468dc4aa4f53904c31c820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:53:46 +0000
Subject: [PATCH 58/67] fix: an alias stands for the last value given its
 anchor

---
 src/VariantParsing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index c1d9a34..04a832b 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -49,7 +49,7 @@ namespace libvariant {
 		{}
 
 		void Anchor(const char *anchor, Variant v) {
-			if (anchor) { anchors.insert(std::make_pair(std::string(anchor), v)); }
+			if (anchor) { anchors[anchor] = v; }
 		}
 
 		Variant Anchor(const char *anchor) {
-- 
2.43.0


From 3109c48a6e298519d7fff45a52aaad3bf72dd1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:53:46 +0000
Subject: [PATCH 59/67] fix: the key of a map may have an anchor

---
 src/VariantParsing.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index 04a832b..7cee808 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -161,6 +161,7 @@ namespace libvariant {
 		virtual void SetValue(ParserImpl *p, Variant v, const char *anchor) {
 			if (expect_key) {
 				key = v.AsString();
+				state->Anchor(anchor, v);
 				expect_key = false;
 			} else {
 				state->Anchor(anchor, v);
-- 
2.43.0


From a0360469709eca309894ee1faa6254a262bdd526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:55:57 +0000
Subject: [PATCH 60/67] fix: a comment inside of an XML element does not split
 its text

---
 src/XMLPLISTParser.cc | 83 ++++++++++++++++++-------------------------
 src/XMLPLISTParser.h  |  1 +
 2 files changed, 36 insertions(+), 48 deletions(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index 5ff0133..80d2ae9 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -162,6 +162,7 @@ namespace libvariant {
 			if (!empty_node) {
 				statestack.push_back(nodetype);
 				empty = true;
+				text.clear();
 			} else {
 				err = true;
 				errorstr = "libvariant XML PLIST does not allow empty interger elements";
@@ -172,6 +173,7 @@ namespace libvariant {
 			if (!empty_node) {
 				statestack.push_back(nodetype);
 				empty = true;
+				text.clear();
 			} else {
 				err = true;
 				errorstr = "libvariant XML PLIST does not allow empty real elements";
@@ -182,6 +184,7 @@ namespace libvariant {
 			if (!empty_node) {
 				statestack.push_back(nodetype);
 				empty = true;
+				text.clear();
 			} else {
 				err = true;
 				errorstr = "libvariant XML PLIST does not allow empty string elements";
@@ -192,6 +195,7 @@ namespace libvariant {
 			if (!empty_node) {
 				statestack.push_back(nodetype);
 				empty = true;
+				text.clear();
 			} else {
 				err = true;
 				errorstr = "libvariant XML PLIST does not allow empty data elements";
@@ -212,6 +216,7 @@ namespace libvariant {
 				}
 				statestack.push_back(nodetype);
 				empty = true;
+				text.clear();
 			}
 			return true;
 		case ListNode:
@@ -236,56 +241,13 @@ namespace libvariant {
 		case ListNode:
 			return true;
 		case IntegerNode:
-			{
-				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
-				intmax_t val;
-				val = strtoll(value, 0, 0);
-				if (val == LLONG_MAX && errno == ERANGE) {
-					uintmax_t v;
-					v = strtoull(value, 0, 0);
-					TopAction()->Scalar(this, v, 0, 0);
-				} else {
-					TopAction()->Scalar(this, val, 0, 0);
-				}
-			}
-			return true;
 		case FloatNode:
-			{
-				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
-				double val = strtod(value, 0);
-				TopAction()->Scalar(this, val, 0, 0);
-			}
-			return true;
 		case StringNode:
-			{
-				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
-				TopAction()->Scalar(this, value, strlen(value), 0, 0);
-			}
-			return true;
 		case BlobNode:
-			{
-				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
-				unsigned length = strlen(value);
-				void *data = 0;
-				if (posix_memalign(&data, 64, Base64DecodeSize(length)) != 0) {
-					err = true;
-					errorstr = "memory allocation failure";
-					throw std::bad_alloc();
-				}
-				unsigned len = Base64Decode(data, value, length);
-				TopAction()->Scalar(this, Blob::CreateFree(data, len), 0, 0);
-			}
-			return true;
 		case KeyNode:
-			{
-				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
-				TopAction()->Scalar(this, value, strlen(value), 0, 0);
-			}
+			// A comment may split the text, it is complete at the end of the element
+			empty = false;
+			text += (const char*)xmlTextReaderConstValue(reader);
 			return true;
 		default:
 			err = true;
@@ -314,13 +276,38 @@ namespace libvariant {
 				errorstr = "libvariant XML PLIST parser cannot have empty numeric nodes";
 				throw std::runtime_error(errorstr);
 			}
+			if (nodetype == IntegerNode) {
+				intmax_t val;
+				val = strtoll(text.c_str(), 0, 0);
+				if (val == LLONG_MAX && errno == ERANGE) {
+					uintmax_t v;
+					v = strtoull(text.c_str(), 0, 0);
+					TopAction()->Scalar(this, v, 0, 0);
+				} else {
+					TopAction()->Scalar(this, val, 0, 0);
+				}
+			} else {
+				double val = strtod(text.c_str(), 0);
+				TopAction()->Scalar(this, val, 0, 0);
+			}
 			return false;
 		case BlobNode:
-			if (empty) { TopAction()->Scalar(this, Blob::CreateCopy("", 0), 0, 0); }
+			if (empty) {
+				TopAction()->Scalar(this, Blob::CreateCopy("", 0), 0, 0);
+			} else {
+				void *data = 0;
+				if (posix_memalign(&data, 64, Base64DecodeSize(text.length())) != 0) {
+					err = true;
+					errorstr = "memory allocation failure";
+					throw std::bad_alloc();
+				}
+				unsigned len = Base64Decode(data, text.c_str(), text.length());
+				TopAction()->Scalar(this, Blob::CreateFree(data, len), 0, 0);
+			}
 			return false;
 		case StringNode:
 		case KeyNode:
-			if (empty) { TopAction()->Scalar(this, "", 0, 0, 0); }
+			TopAction()->Scalar(this, text.c_str(), text.length(), 0, 0);
 			return false;
 		case RootNode:
 			TopAction()->EndDocument(this);
diff --git a/src/XMLPLISTParser.h b/src/XMLPLISTParser.h
index 237adb6..5e0b7aa 100644
--- a/src/XMLPLISTParser.h
+++ b/src/XMLPLISTParser.h
@@ -73,6 +73,7 @@ namespace libvariant {
 		shared_ptr<ParserInput> input;
 		bool closed;
 		bool empty;
+		std::string text;
 		bool err;
 		std::string errorstr;
 	};
-- 
2.43.0


From 65cb069782d37c4588546a85f5589bb270824d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:57:04 +0000
Subject: [PATCH 61/67] fix: an XML property list that does not fit its buffer
 is reported

---
 src/XMLPLISTEmitter.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/XMLPLISTEmitter.cc b/src/XMLPLISTEmitter.cc
index 015b6ed..b5ab973 100644
--- a/src/XMLPLISTEmitter.cc
+++ b/src/XMLPLISTEmitter.cc
@@ -31,7 +31,9 @@ namespace libvariant {
 
 	int XMLPLISTEmitterImpl::DoWrite(void *ctx, const char *buffer, int len) {
 		XMLPLISTEmitterImpl *impl = (XMLPLISTEmitterImpl*)ctx;
-		return impl->output->Write(buffer, len);
+		// An exception must not pass through libxml2
+		try { return impl->output->Write(buffer, len); }
+		catch (...) { return -1; }
 	}
 
 	int XMLPLISTEmitterImpl::DoClose(void *ctx) {
-- 
2.43.0


From a4a0db6d0dd025f9a7988df7a005dee03cdfe553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:58:12 +0000
Subject: [PATCH 62/67] fix: a YAML text that does not fit its buffer is
 reported

---
 src/YAMLEmitter.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index 4337507..728c9bb 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -46,7 +46,9 @@ namespace libvariant {
 
 	static int WriteHandler(void *data, unsigned char *buffer, size_t size) {
 		EmitterOutput *out = (EmitterOutput*)data;
-		return out->Write((const void*)buffer, size);
+		// An exception must not pass through libyaml
+		try { return out->Write((const void*)buffer, size); }
+		catch (...) { return 0; }
 	}
 
 	static const char *param_keys[] = { "scalar_style", "map_style", "list_style",
@@ -211,7 +213,7 @@ namespace libvariant {
 
 	YAMLEmitterImpl::~YAMLEmitterImpl() {
 		try { Close(); }
-		catch (const std::runtime_error &) {}
+		catch (const std::runtime_error &) { yaml_emitter_delete(&emitter); }
 	}
 
 	void YAMLEmitterImpl::BeginDocument() {
-- 
2.43.0


From 07aac9bdbf48f5d800115955b3d0bc9de15f26c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:58:37 +0000
Subject: [PATCH 63/67] fix: an event that cannot be written as YAML is
 released once

---
 src/YAMLEmitter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index 728c9bb..31a15fa 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -421,7 +421,7 @@ namespace libvariant {
 
 	void YAMLEmitterImpl::Emit(yaml_event_t &event) {
 		if (yaml_emitter_emit(&emitter, &event) == 0) {
-			yaml_event_delete(&event);
+			// libyaml releases the event, even if it could not be emitted
 			throw std::runtime_error(emitter.problem);
 		}
 	}
-- 
2.43.0


From ad81446aff7ffe38456510be54f6dd9ddff60054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:09:27 +0000
Subject: [PATCH 64/67] fix: a CDATA section counts as text in an XML property
 list

---
 src/XMLPLISTParser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index 80d2ae9..df0e275 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -99,6 +99,7 @@ namespace libvariant {
 						loop = EndElement(StringToNode(name));
 						break;
 					case XML_READER_TYPE_TEXT:
+					case XML_READER_TYPE_CDATA:
 						loop = ProcessText();
 						break;
 					case XML_READER_TYPE_WHITESPACE:
@@ -110,7 +111,6 @@ namespace libvariant {
 						break;
 					case XML_READER_TYPE_END_ENTITY:
 					case XML_READER_TYPE_ATTRIBUTE:
-					case XML_READER_TYPE_CDATA:
 					case XML_READER_TYPE_ENTITY_REFERENCE:
 					case XML_READER_TYPE_ENTITY:
 					case XML_READER_TYPE_PROCESSING_INSTRUCTION:
-- 
2.43.0


From 2d27ac0c91efc2815acd7e597733f7f861b78cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:13:26 +0000
Subject: [PATCH 65/67] fix: the YAML styles in use are returned as parameters

---
 src/YAMLEmitter.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index 31a15fa..97395f0 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -170,11 +170,11 @@ namespace libvariant {
 	Variant YAMLEmitterImpl::Config::GetParam(ConfigKeys index) {
 		switch (index) {
 		case SCALAR_STYLE:
-			return scalar_style_str[index];
+			return scalar_style_str[default_scalar_style];
 		case MAP_STYLE:
-			return style_str[index];
+			return style_str[default_map_style];
 		case LIST_STYLE:
-			return style_str[index];
+			return style_str[default_list_style];
 		case IMPLICIT_DOCUMENT_BEGIN:
 			return implicit_begin_document;
 		case IMPLICIT_DOCUMENT_END:
-- 
2.43.0


From 0466a7501b498fe2bfdd971b577332dd66e25f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:20:07 +0000
Subject: [PATCH 66/67] fix: revert the separate handling of CDATA sections,
 which the reader already delivers as text

---
 src/XMLPLISTParser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index df0e275..80d2ae9 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -99,7 +99,6 @@ namespace libvariant {
 						loop = EndElement(StringToNode(name));
 						break;
 					case XML_READER_TYPE_TEXT:
-					case XML_READER_TYPE_CDATA:
 						loop = ProcessText();
 						break;
 					case XML_READER_TYPE_WHITESPACE:
@@ -111,6 +110,7 @@ namespace libvariant {
 						break;
 					case XML_READER_TYPE_END_ENTITY:
 					case XML_READER_TYPE_ATTRIBUTE:
+					case XML_READER_TYPE_CDATA:
 					case XML_READER_TYPE_ENTITY_REFERENCE:
 					case XML_READER_TYPE_ENTITY:
 					case XML_READER_TYPE_PROCESSING_INSTRUCTION:
-- 
2.43.0


From 17ee7db8f6959a76407b825aee9673cd2c2afe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:26:27 +0000
Subject: [PATCH 67/67] fix: the type of the largest integer in an XML property
 list does not depend on an old error number

---
 src/XMLPLISTParser.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index 80d2ae9..227e425 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -278,6 +278,7 @@ namespace libvariant {
 			}
 			if (nodetype == IntegerNode) {
 				intmax_t val;
+				errno = 0;
 				val = strtoll(text.c_str(), 0, 0);
 				if (val == LLONG_MAX && errno == ERANGE) {
 					uintmax_t v;
-- 
2.43.0

