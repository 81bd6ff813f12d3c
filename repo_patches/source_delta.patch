From 47d156379f5cc58bd9c21a5f1ec1720c4bbe5dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 01/32] fix: SkippingBufferedStream: rewind to the right data
 after a skip, to the end of the data read, and keep errors

---
 lib/skippingbufferedstream.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/skippingbufferedstream.h b/lib/skippingbufferedstream.h
index c22e12a..6ec12af 100644
--- a/lib/skippingbufferedstream.h
+++ b/lib/skippingbufferedstream.h
@@ -169,7 +169,7 @@ SkippingBufferedStream<T>::reset(int64_t newpos) {
     if (StreamBase<T>::m_status == Error) return -2;
     // check to see if we have this position
     int64_t d = StreamBase<T>::m_position - newpos;
-    if (buffer.readPos - d >= buffer.start && -d < buffer.avail) {
+    if (buffer.readPos - d >= buffer.start && -d <= buffer.avail) {
         StreamBase<T>::m_position -= d;
         buffer.avail += (int32_t)d;
         buffer.readPos -= d;
@@ -181,6 +181,7 @@ template <class T>
 int64_t
 SkippingBufferedStream<T>::skip(int64_t ntoskip) {
     assert(ntoskip >= 0);
+    if (StreamBase<T>::m_status == Error) return -2;
     if (ntoskip == 0) return 0;
     if (buffer.avail > ntoskip) {
         buffer.avail -= (int32_t)ntoskip;
@@ -192,9 +193,15 @@ SkippingBufferedStream<T>::skip(int64_t ntoskip) {
     StreamBase<T>::m_position += frombuffer;
     int64_t oldpos = StreamBase<T>::m_position;
     buffer.avail = 0;
+    buffer.readPos += frombuffer;
     ntoskip -= frombuffer;
     int64_t n = (ntoskip) ?advanceInput(ntoskip) :0;
-    if (n < 0) {
+    if (n > 0) {
+        // the data in the buffer does not precede the new position
+        buffer.readPos = buffer.start;
+        buffer.avail = 0;
+    }
+    if (n < 0 || StreamBase<T>::m_status == Error) {
         StreamBase<T>::m_status = Error;
         return -2;
     }
-- 
2.43.0


From 336422c2d70a94c02fd8fa92d358b878fd412cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 02/32] fix: 64 bit integer readers for unsigned char read only
 16 bits

---
 include/strigi/textutils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strigi/textutils.h b/include/strigi/textutils.h
index d69d4d0..dc6bc91 100644
--- a/include/strigi/textutils.h
+++ b/include/strigi/textutils.h
@@ -107,7 +107,7 @@ inline STREAMS_INLINE_EXPORT uint32_t readLittleEndianUInt32(const unsigned char
     return readLittleEndianUInt32(reinterpret_cast<const char*>(c));
 }
 inline STREAMS_INLINE_EXPORT int64_t  readLittleEndianInt64(const unsigned char* c) {
-    return readLittleEndianInt16(reinterpret_cast<const char*>(c));
+    return readLittleEndianInt64(reinterpret_cast<const char*>(c));
 }
 inline STREAMS_INLINE_EXPORT uint64_t readLittleEndianUInt64(const unsigned char* c) {
     return readLittleEndianUInt64(reinterpret_cast<const char*>(c));
@@ -125,7 +125,7 @@ inline STREAMS_INLINE_EXPORT uint32_t readBigEndianUInt32(const unsigned char* c
     return readBigEndianUInt32(reinterpret_cast<const char*>(c));
 }
 inline STREAMS_INLINE_EXPORT int64_t  readBigEndianInt64(const unsigned char* c) {
-    return readBigEndianInt16(reinterpret_cast<const char*>(c));
+    return readBigEndianInt64(reinterpret_cast<const char*>(c));
 }
 inline STREAMS_INLINE_EXPORT uint64_t readBigEndianUInt64(const unsigned char* c) {
     return readBigEndianUInt64(reinterpret_cast<const char*>(c));
-- 
2.43.0


From c23d5cd4a2120771e48a9f3dbba1818699917b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 03/32] fix: dos2unixtime drops the high bit of the hour

---
 lib/dostime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/dostime.cpp b/lib/dostime.cpp
index 8076068..373e294 100644
--- a/lib/dostime.cpp
+++ b/lib/dostime.cpp
@@ -50,7 +50,7 @@ dos2unixtime (unsigned long dostime)
   ltime.tm_year = (int)(dostime >> 25) + 80;
   ltime.tm_mon = ((int)(dostime >> 21) & 0x0f) - 1;
   ltime.tm_mday = (int)(dostime >> 16) & 0x1f;
-  ltime.tm_hour = (int)(dostime >> 11) & 0x0f;
+  ltime.tm_hour = (int)(dostime >> 11) & 0x1f;
   ltime.tm_min = (int)(dostime >> 5) & 0x3f;
   ltime.tm_sec = (int)(dostime & 0x1f) << 1;
 
-- 
2.43.0


From 4198fc804e64f6d49f52206eef5b5023905c2280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:36 +0000
Subject: [PATCH 04/32] fix: checkUtf8 accepts overlong forms and values above
 U+10FFFF

---
 lib/textutils.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/textutils.cpp b/lib/textutils.cpp
index ae11316..718e171 100644
--- a/lib/textutils.cpp
+++ b/lib/textutils.cpp
@@ -34,6 +34,7 @@ Strigi::checkUtf8(const char* p, int32_t length) {
     // check if the text is valid UTF-8
     char nb = 0;
     uint64_t val = 0;
+    uint64_t min = 0; // smallest value that needs the current sequence length
     while (p < end) {
         unsigned char c = *p;
         if (nb) {
@@ -43,7 +44,8 @@ Strigi::checkUtf8(const char* p, int32_t length) {
             val = (val << 6) + (c & 0x3F);
             if (--nb == 0) {
                 // check the range of the utf 8 value
-                if (val == 0xFFFE || val == 0xFFFF // Noncharacters
+                if (val < min || val > 0x10FFFF // overlong or out of range
+                        || val == 0xFFFE || val == 0xFFFF // Noncharacters
                         // surrogate values not allowed in UTF-8
                         || (val >= 0xD800 && val <= 0xDFFF)) {
                     return false;
@@ -52,12 +54,15 @@ Strigi::checkUtf8(const char* p, int32_t length) {
         } else if (c >= 0xC2 && c <= 0xDF) {
             nb = 1;
             val = c & 0x1F;
+            min = 0x80;
         } else if ((0xF0 & c) == 0xE0) {
             nb = 2;
             val = c & 0x0F;
+            min = 0x800;
         } else if (c >= 0xF0 && c <= 0xF4) {
             nb = 3;
             val = c & 0x07;
+            min = 0x10000;
         } else if (c > 0x7F
                 || (c < 0x20 && !(c == 0x9 || c == 0xA || c == 0xD))) {
             return false;
@@ -86,6 +91,7 @@ Strigi::checkUtf8(const char* p, int32_t length, char& nb) {
     const char* end = p + length;
     const char* cs = p;
     uint64_t val = 0;
+    uint64_t min = 0; // smallest value that needs the current sequence length
     // check if the text is valid UTF-8
     nb = 0;
     while (p < end) {
@@ -99,7 +105,8 @@ Strigi::checkUtf8(const char* p, int32_t length, char& nb) {
             val = (val << 6) + (c & 0x3F);
             if (--nb == 0) {
                 // check the range of the utf 8 value
-                if (val == 0xFFFE || val == 0xFFFF // Noncharacters
+                if (val < min || val > 0x10FFFF // overlong or out of range
+                        || val == 0xFFFE || val == 0xFFFF // Noncharacters
                         // surrogate values not allowed in UTF-8
                         || (val >= 0xD800 && val <= 0xDFFF)) {
                     // nb is 0 to signal an error
@@ -109,14 +116,17 @@ Strigi::checkUtf8(const char* p, int32_t length, char& nb) {
         } else if (c >= 0xC2 && c <= 0xDF) {
             cs = p;
             val = c & 0x1F;
+            min = 0x80;
             nb = 1;
         } else if ((0xF0 & c) == 0xE0) {
             cs = p;
             val = c & 0x0F;
+            min = 0x800;
             nb = 2;
         } else if (c >= 0xF0 && c <= 0xF4) {
             cs = p;
             val = c & 0x07;
+            min = 0x10000;
             nb = 3;
         } else if (c > 0x7F
                 || (c < 0x20 && !(c == 0x9 || c == 0xA || c == 0xD))) {
-- 
2.43.0


From 67980321c1d75aa4dd0b11273574a219c7d88865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 05/32] fix: SubInputStream: set the size at the end, skip to
 the end of an unlimited stream, do not reset past the limit

---
 lib/subinputstream.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lib/subinputstream.cpp b/lib/subinputstream.cpp
index ca81173..989bac2 100644
--- a/lib/subinputstream.cpp
+++ b/lib/subinputstream.cpp
@@ -56,8 +56,8 @@ SubInputStream::read(const char*& start, int32_t min, int32_t max) {
             m_status = Eof;
             if (nread > 0) {
                 m_position += nread;
-                m_size = m_position;
             }
+            m_size = m_position;
         } else {
 //            fprintf(stderr, "!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!! nread %i min %i max %i m_size %li\n", nread, min, max, m_size);
 //            fprintf(stderr, "pos %li parentpos %li\n", m_position, m_input->position());
@@ -80,6 +80,10 @@ SubInputStream::reset(int64_t newpos) {
     assert(newpos >= 0);
 //    fprintf(stderr, "subreset pos: %li newpos: %li m_offset: %li m_size: %li\n",
 //         m_position, newpos, m_offset, m_size);
+    // do not move beyond the end of the substream
+    if (m_size != -1 && newpos > m_size) {
+        newpos = m_size;
+    }
     m_position = m_input->reset(newpos + m_offset);
     if (m_position < m_offset) {
         cerr << "########### m_position " << m_position << " newpos " << newpos
@@ -89,6 +93,9 @@ SubInputStream::reset(int64_t newpos) {
     } else {
         m_position -= m_offset;
         m_status = m_input->status();
+        if (m_status == Eof && m_size == -1) {
+            m_size = m_position;
+        }
     }
     return m_position;
 }
@@ -112,9 +119,15 @@ SubInputStream::skip(int64_t ntoskip) {
         m_status = Error;
         m_error = m_input->error();
     } else {
-        m_position += skipped;
+        if (skipped > 0) {
+            m_position += skipped;
+        }
         if (m_position == m_size) {
             m_status = Eof;
+        } else if (skipped <= 0 && m_size == -1) {
+            // the end of the input is the end of a stream without limit
+            m_status = Eof;
+            m_size = m_position;
         } else if (skipped <= 0) {
             m_status = Error;
             m_error = "Premature end of stream\n";
-- 
2.43.0


From 890f5fb43ba65f7f9b9e359bab656bf815eca965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 06/32] fix: StringTerminatedSubStream: respect min and max, do
 not read past the terminator, set the size at the end

---
 lib/stringterminatedsubstream.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/stringterminatedsubstream.cpp b/lib/stringterminatedsubstream.cpp
index a0c3484..bb9bbe9 100644
--- a/lib/stringterminatedsubstream.cpp
+++ b/lib/stringterminatedsubstream.cpp
@@ -57,6 +57,9 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
     if (m_status == Eof) return -1;
     if (m_status == Error) return -2;
     int32_t nread;
+    // if max is smaller than min, there is no limit
+    if (min < 1) min = 1;
+    if (max < min) max = 0;
 
     // check if we already read enough
     const int64_t pos = p->m_input->position();
@@ -82,16 +85,13 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
     // increase min and max to accommodate for the length of the terminator
     int32_t tlmin = min;
     int32_t tlmax = max;
-    if (tlmin == 0) {
-        tlmin = 1 + tl;
-    } else {
-        tlmin += tl;
-    }
+    tlmin += tl;
     if (tlmax > 0 && tlmax < tlmin) tlmax = tlmin;
 
     nread = p->m_input->read(start, tlmin, tlmax);
     if (nread == -1) {
         m_status = Eof;
+        m_size = m_position;
         return nread;
     }
     if (nread < -1) {
@@ -130,11 +130,14 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
     if (nread > 0) m_position += nread;
     if (m_status == Eof) {
         m_size = m_position;
+        if (nread == 0) nread = -1;
     }
     return nread;
 }
 int64_t
 StringTerminatedSubStream::reset(int64_t newpos) {
+    // do not move beyond the terminator
+    if (m_size != -1 && newpos > m_size) newpos = m_size;
     m_position = p->m_input->reset(newpos + p->m_offset);
     if (m_position >= p->m_offset) {
         m_position -= p->m_offset;
-- 
2.43.0


From 67c224ba9080223e058d42828ae7ba35d71bd706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 07/32] fix: StringStream: honour min when max is smaller, do
 not truncate 64 bit skips

---
 include/strigi/stringstream.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/strigi/stringstream.h b/include/strigi/stringstream.h
index 64440d0..306268f 100644
--- a/include/strigi/stringstream.h
+++ b/include/strigi/stringstream.h
@@ -110,8 +110,7 @@ StringStream<T>::read(const T*& start, int32_t min, int32_t max) {
         StreamBase<T>::m_status = Eof;
         return -1;
     }
-    if (min < 0) min = 0;
-    int32_t nread = (max > left || max < 1) ?(int32_t)left :max;
+    int32_t nread = (max > left || max < 1 || max < min) ?(int32_t)left :max;
     start = data + StreamBase<T>::m_position;
     StreamBase<T>::m_position += nread;
     if (StreamBase<T>::m_position == StreamBase<T>::m_size) {
@@ -123,6 +122,8 @@ template <class T>
 int64_t
 StringStream<T>::skip(int64_t ntoskip) {
     if (ntoskip == 0) return 0;
+    const int64_t left = StreamBase<T>::m_size - StreamBase<T>::m_position;
+    if (ntoskip > left) ntoskip = left;
     const T* start;
     return read(start, (int32_t)ntoskip, (int32_t)ntoskip);
 }
-- 
2.43.0


From 1dbedc955754266ac48638874f2ae241ad71d645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 08/32] fix: DataEventInputStream: a forward reset into
 reported data does not invalidate the data

---
 lib/dataeventinputstream.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/dataeventinputstream.cpp b/lib/dataeventinputstream.cpp
index 91da8ee..54c38a4 100644
--- a/lib/dataeventinputstream.cpp
+++ b/lib/dataeventinputstream.cpp
@@ -101,7 +101,7 @@ DataEventInputStream::skip(int64_t ntoskip) {
 int64_t
 DataEventInputStream::reset(int64_t np) {
 //    fprintf(stderr, "DataEventInputStream::reset from %lli to %lli.\n", m_position, np);
-    if (np > m_position) {
+    if (np > m_position && totalread != -1 && np > totalread) {
         // advance to the new position, using skip ensure we actually read
         // the files
         skip(np - m_position);
@@ -117,6 +117,11 @@ DataEventInputStream::reset(int64_t np) {
     }
 //    fprintf(stderr, "np %lli newpos %lli status %i\n", np, newpos, m_status);
     m_position = newpos;
+    if (newpos >= 0 && newpos < np && m_status == Ok) {
+        // the input can only be moved forward by skipping
+        skip(np - newpos);
+        return m_position;
+    }
     return newpos;
 }
 void
-- 
2.43.0


From 6883d93a222b0f02dfbd9d2d54b14333f8dcbaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:32 +0000
Subject: [PATCH 09/32] fix: KmpSearcher: writing before the tables for an
 empty query

---
 lib/kmpsearcher.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/kmpsearcher.cpp b/lib/kmpsearcher.cpp
index f3e9983..8752d18 100644
--- a/lib/kmpsearcher.cpp
+++ b/lib/kmpsearcher.cpp
@@ -44,6 +44,7 @@ void
 suffixes(const char* x, int32_t m, int32_t* suff) {
     int32_t f, g, i;
 
+    if (m < 1) return;
     f = 0; 
     suff[m - 1] = m;
     g = m - 1;
-- 
2.43.0


From 78670d76b7e147a7b679f63a535bcf2b0fbbf64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 10/32] fix: file streams: report the end and errors as -1 and
 -2, do not skip past the end or into an error

---
 lib/mmapfileinputstream.cpp      |  5 +++++
 lib/skippingfileinputstream.cpp  | 10 ++++++++--
 lib/skippingfileinputstream2.cpp |  6 ++++++
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/lib/mmapfileinputstream.cpp b/lib/mmapfileinputstream.cpp
index 8552f60..3af0de7 100644
--- a/lib/mmapfileinputstream.cpp
+++ b/lib/mmapfileinputstream.cpp
@@ -71,6 +71,10 @@ int32_t
 MMapFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
     if (m_status == Error) return -2;
     if (m_status == Eof) return -1;
+    if (m_position >= m_size) {
+        m_status = Eof;
+        return -1;
+    }
     int32_t n = max(_min, _max);
     if (n >= m_size - m_position) {
         m_status = Eof;
@@ -82,6 +86,7 @@ MMapFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
 }
 int64_t
 MMapFileInputStream::skip(int64_t ntoskip) {
+    if (m_status == Error) return -2;
     if (ntoskip >= m_size - m_position) {
         ntoskip = m_size - m_position;
         m_status = Eof;
diff --git a/lib/skippingfileinputstream.cpp b/lib/skippingfileinputstream.cpp
index 9759c54..16467e8 100644
--- a/lib/skippingfileinputstream.cpp
+++ b/lib/skippingfileinputstream.cpp
@@ -86,7 +86,7 @@ SkippingFileInputStream::~SkippingFileInputStream() {
 }
 int32_t
 SkippingFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
-    if (!file) {
+    if (!file || m_status == Error) {
          m_status = Error;
          return -2; // error
     }
@@ -109,12 +109,15 @@ SkippingFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
     m_position = ftell(file);
     if (nr != n) {
         if (ferror(file)) {
+            m_error = "Could not read from file '" + filepath + "'.";
             m_status = Error;
+            return -2;
         } else {
             m_status = Eof;
             if (m_size == -1) {
                 m_size = m_position;
             }
+            if (nr == 0) nr = -1;
         }
     }
     start = buffer;
@@ -122,18 +125,21 @@ SkippingFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
 }
 int64_t
 SkippingFileInputStream::skip(int64_t ntoskip) {
+    // the position of the end must be known to be able to seek
+    if (m_size == -1) return InputStream::skip(ntoskip);
     int64_t oldpos = m_position;
     if (reset(m_position + ntoskip) == -2) return -2;
     return m_position - oldpos;
 }
 int64_t
 SkippingFileInputStream::reset(int64_t pos) {
-    if (!file) {
+    if (!file || m_status == Error) {
          m_status = Error;
          return -2; // error
     }
     if (m_size >= 0 && pos > m_size) pos = m_size;
     if (fseek(file, pos, SEEK_SET)) {
+        m_error = "Could not seek in file '" + filepath + "'.";
         m_status = Error;
         return -2;
     }
diff --git a/lib/skippingfileinputstream2.cpp b/lib/skippingfileinputstream2.cpp
index dcfcef2..e38649d 100644
--- a/lib/skippingfileinputstream2.cpp
+++ b/lib/skippingfileinputstream2.cpp
@@ -116,6 +116,12 @@ int64_t
 SkippingFileInputStream2::advanceInput(int64_t ntoskip) {
     if (m_status == Error) return -1;
     if (file == 0) return 0;
+    // the position of the end must be known to be able to seek
+    if (m_size == -1) {
+        return SkippingBufferedInputStream::advanceInput(ntoskip);
+    }
+    const int64_t left = m_size - ftello(file);
+    if (ntoskip > left) ntoskip = left;
     if (fseeko(file, ntoskip, SEEK_CUR)) {
         m_error = "Could not skip in file '" + filepath + "'.";
         fclose(file);
-- 
2.43.0


From 2dd065f57bf0afff8289e7503054832b80fda00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:11 +0000
Subject: [PATCH 11/32] fix: Base64InputStream::decode reads before the start
 of an empty text

---
 lib/base64inputstream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/base64inputstream.cpp b/lib/base64inputstream.cpp
index 1b344a5..526b11a 100644
--- a/lib/base64inputstream.cpp
+++ b/lib/base64inputstream.cpp
@@ -186,7 +186,7 @@ string
 Base64InputStream::decode(const char* in, string::size_type length) {
     initialize();
     string d;
-    if (length%4) return d;
+    if (length == 0 || length%4) return d;
     initialize();
     string::size_type words = length/4;
     d.reserve(words*3);
-- 
2.43.0


From 8b1a1718f4f3c2fbbed4002296cd33b65f4356de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:46 +0000
Subject: [PATCH 12/32] fix: MailInputStream: short header fields, folded lines
 and words in unknown encodings lost text; body began with the blank line;
 errors were reported as the end

---
 lib/mailinputstream.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index de95840..f83bed3 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -157,7 +157,7 @@ HeaderDecoder::decodedHeaderValue(const char* v, uint32_t len) {
             while (q2 < e && *q2 != '?') q2++;
             end = q2+1;
             while (end < e && *end != '?') end++;
-            if (e - end < 1 || end[1] != '=') {
+            if (e - end < 2 || end[1] != '=') {
                 s++;
                 continue;
             }
@@ -182,7 +182,8 @@ HeaderDecoder::decodedHeaderValue(const char* v, uint32_t len) {
                 }
                 decoded.append(str);
             } else {
-                s -= 1;
+                // unknown encoding: keep the text as it is
+                decoded.append(s - 2, end + 2 - (s - 2));
             }
 
             // continue after the quoted data
@@ -191,7 +192,7 @@ HeaderDecoder::decodedHeaderValue(const char* v, uint32_t len) {
                 && (s[2] == 9 || s[2] == 32)) {
             // skip the CRLF WSP used for folding the header lines
             decoded.append(p, s-p);
-            s = p = s + 4;
+            s = p = s + 3;
         } else {
             s++;
         }
@@ -382,6 +383,12 @@ MailInputStream::Private::readHeaderLine() {
     m->m_input->reset(nextLineStartPosition);
     do {
         nread = m->m_input->read(linestart, linepos+1, maxlinesize);
+        if (nread < -1) {
+            m->m_status = Error;
+            m->m_error = m->m_input->error();
+            lineend = linestart;
+            return;
+        }
         if (nread < linepos+1) {
             completeLine = true;
             lineend = linestart + nread;
@@ -413,7 +420,7 @@ MailInputStream::Private::readHeaderLine() {
                 } else if (state == 1) { // '\r'
                     if (c == '\n') {
                         state = 3;
-                    } else if (c == '\r' || !isspace(c)) { // end
+                    } else if (c == '\r' || linepos == 1 || !isspace(c)) { // end
                         completeLine = true;
                         lineend = linestart + linepos - 1;
                         break;
@@ -421,7 +428,7 @@ MailInputStream::Private::readHeaderLine() {
                         state = 0;
                     }
                 } else if (state == 2) { // '\n'
-                    if (c == '\n' || !isspace(c)) { // end
+                    if (c == '\n' || linepos == 1 || !isspace(c)) { // end
                         completeLine = true;
                         lineend = linestart + linepos - 1;
                         break;
@@ -521,9 +528,7 @@ MailInputStream::Private::handleHeaderLine() {
     static const char* contentdisposition = "Content-Disposition:";
     int32_t len = (int32_t)(lineend - linestart);
     if (len < 2) return;
-    if (len < 8) {
-        return;
-    } else if (strncasecmp(linestart, subject, 8) == 0) {
+    if (strncasecmp(linestart, subject, 8) == 0) {
         int32_t offset = 8;
         while (offset < len && isspace(linestart[offset])) offset++;
         m->m_subject = decoder.decodedHeaderValue(linestart+offset, len-offset);
@@ -647,6 +652,7 @@ MailInputStream::nextEntry() {
     if (p->boundary.size() == 0) {
         // signal eof because we only return eof once
         m_status = Eof;
+        m_input->reset(p->nextLineStartPosition);
         m_entrystream = new SubInputStream(m_input);
         m_entryinfo.filename = "body";
         return m_entrystream;
@@ -676,7 +682,7 @@ MailInputStream::nextEntry() {
     }
     p->scanBody();
 
-    if (m_entrystream == 0) {
+    if (m_entrystream == 0 && m_status != Error) {
         m_status = Eof;
     }
     p->ensureFileName();
-- 
2.43.0


From 744c0734216ffcbb99b66cbda2581d59f283fd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:32 +0000
Subject: [PATCH 13/32] fix: TarInputStream: sizes from 2 GiB on, long names
 with link targets, the end of archives of minimal length, damaged fields

---
 include/strigi/tarinputstream.h |  2 +-
 lib/tarinputstream.cpp          | 74 ++++++++++++++++++++++++---------
 2 files changed, 55 insertions(+), 21 deletions(-)

diff --git a/include/strigi/tarinputstream.h b/include/strigi/tarinputstream.h
index 41692a7..2cef99d 100644
--- a/include/strigi/tarinputstream.h
+++ b/include/strigi/tarinputstream.h
@@ -46,7 +46,7 @@ private:
     void readFileName(int32_t len);
     const char* readHeader();
     void parseHeader();
-    int32_t readOctalField(const char *b, int32_t offset);
+    int64_t readOctalField(const char *b, int32_t offset);
     void readLongLink(const char *b);
 public:
     explicit TarInputStream(InputStream *input);
diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index ecda8d7..00bc84f 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -20,6 +20,7 @@
 #include <strigi/tarinputstream.h>
 #include <strigi/strigiconfig.h>
 #include <strigi/subinputstream.h>
+#include <cctype>
 #include <cstring>
 #include <iostream>
 
@@ -51,12 +52,12 @@ TarInputStream::nextEntry() {
 const char*
 TarInputStream::readHeader() {
     // read the first 512 characters
-    const char *begin;
+    const char *begin = 0;
     int32_t nread = m_input->read(begin, 512, 512);
-    if (nread == 0 || m_input->status() == Eof) {
-        m_status = Eof;
-    } else if (nread != 512) {
+    if (nread < -1) {
         m_status = Error;
+    } else if (nread != 512) {
+        m_status = Eof;
     }
     return begin;
 }
@@ -140,19 +141,31 @@ TarInputStream::parseHeader() {
     }
     if (len > 100) len = 100;
     m_entryinfo.filename.resize(0);
-    if (len == 13 && strncmp(hb, "././@LongLink", 13) == 0) {
+    while (len == 13 && strncmp(hb, "././@LongLink", 13) == 0) {
         readLongLink(hb);
         if (m_status) return;
         hb = readHeader();
-        if (m_status) return;
-    } else if (len > 1 && hb[0] == '.' && hb[1] == '/') {
+        if (m_status) {
+            m_status = Error;
+            m_error = "Premature end of file.";
+            return;
+        }
+        if (!checkHeader(hb, 257)) {
+            m_error = "Invalid tar header.\n";
+            m_status = Error;
+            return;
+        }
+        for (len = 0; len < 100 && hb[len] != '\0'; ++len) {}
+    }
+    if (m_entryinfo.filename.empty()) {
+        m_entryinfo.filename.assign(hb, len);
+    }
+    if (m_entryinfo.filename.compare(0, 2, "./") == 0) {
         // skip initial './' part of filename
-        if (len == 2) { // skip entry './'
+        if (m_entryinfo.filename.length() == 2) { // skip entry './'
             return parseHeader();
         }
-        m_entryinfo.filename.append(hb, 2, len-2);
-    } else {
-        m_entryinfo.filename.append(hb, 0, len);
+        m_entryinfo.filename.erase(0, 2);
     }
 
     // read the file size which is in octal format
@@ -167,7 +180,7 @@ TarInputStream::parseHeader() {
     }
 
     len = m_entryinfo.filename.length();
-    if (m_entryinfo.filename[len-1] == '/') {
+    if (len > 0 && m_entryinfo.filename[len-1] == '/') {
         m_entryinfo.filename.resize(len-1);
     }
     // read file type
@@ -180,11 +193,18 @@ TarInputStream::parseHeader() {
     }
 //    printf("!%s %i\n", m_entryinfo.filename.c_str(), hb[156]);
 }
-int32_t
+int64_t
 TarInputStream::readOctalField(const char *b, int32_t offset) {
-    int32_t val;
-    int r = sscanf(b+offset, "%o", &val);
-    if (r != 1) {
+    // the field has 12 bytes: the number may be preceded by white space
+    const char* p = b + offset;
+    const char* const end = p + 12;
+    while (p < end && isspace((unsigned char)*p)) ++p;
+    const char* const digits = p;
+    int64_t val = 0;
+    while (p < end && *p >= '0' && *p <= '7') {
+        val = val*8 + (*p++ - '0');
+    }
+    if (p == digits) {
         m_status = Error;
         m_error = "Error reading header: octal field is not a valid integer.";
         return 0;
@@ -193,25 +213,39 @@ TarInputStream::readOctalField(const char *b, int32_t offset) {
 }
 void
 TarInputStream::readLongLink(const char *b) {
-    int32_t toread = readOctalField(b, 124);
+    // 'K' announces the name of a link target, otherwise it is a file name
+    const bool isfilename = b[156] != 'K';
+    const int64_t size = readOctalField(b, 124);
+    if (m_status) return;
+    if (size > 0x7fffffff) {
+        m_status = Error;
+        m_error = "Error reading LongLink: name is too long.";
+        return;
+    }
+    if (size == 0) return;
+    int32_t toread = (int32_t)size;
     int32_t left = toread%512;
     if (left) {
         left = 512 - left;
     }
     const char *begin;
-    if (m_status) return;
     int32_t nread = m_input->read(begin, toread, toread);
     if (nread != toread) {
             m_status = Error;
             m_error = "Error reading LongLink: ";
-            if (nread == -1) {
+            if (nread < -1) {
                 m_error += m_input->error();
             } else {
                 m_error += " premature end of file.";
             }
             return;
     }
-    m_entryinfo.filename.append(begin, nread);
+    if (isfilename) {
+        // the name is terminated by '\0'
+        const void* nul = std::memchr(begin, '\0', nread);
+        m_entryinfo.filename.assign(begin,
+            nul ?(const char*)nul - begin :nread);
+    }
 
     int64_t skipped = m_input->skip(left);
     if (skipped != left) {
-- 
2.43.0


From 47876eb6e96fab7772588c02068895de210000e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:32 +0000
Subject: [PATCH 14/32] fix: ArInputStream: sizes from 2 GiB on and times after
 2038, empty name tables

---
 lib/arinputstream.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lib/arinputstream.cpp b/lib/arinputstream.cpp
index 65c3fda..2d4f340 100644
--- a/lib/arinputstream.cpp
+++ b/lib/arinputstream.cpp
@@ -96,16 +96,29 @@ ArInputStream::readHeader() {
     char bc[61];
     std::memcpy(bc, b, 60);
     bc[60] = '\0';
-    m_entryinfo.size = atoi(bc+48);
+    // the fields are not terminated
+    const std::string sizefield(b+48, 10);
+    const std::string timefield(b+16, 12);
+    m_entryinfo.size = strtoll(sizefield.c_str(), 0, 10);
     if (m_entryinfo.size < 0) {
         m_error = "Error: negative file size.";
         m_status = Error;
         return;
     }
-    m_entryinfo.mtime = atoi(bc+16);
+    m_entryinfo.mtime = (time_t)strtoll(timefield.c_str(), 0, 10);
     if (len == 0) {
         if (b[1] == '/') {
             // fprintf(stderr, "SIZE: %lli\n", m_entryinfo.size);
+            if (m_entryinfo.size > 0x7fffffff) {
+                m_error = "Error: table of file names is too long.";
+                m_status = Error;
+                return;
+            }
+            if (m_entryinfo.size == 0) {
+                gnufilenames.resize(0);
+                readHeader();
+                return;
+            }
             nread = m_input->read(b, (int32_t)m_entryinfo.size, (int32_t)m_entryinfo.size);
             if (nread != m_entryinfo.size) {
                 m_error = "premature end of stream";
-- 
2.43.0


From 7ac6f8b7b730411f6a672c1fdca7db52e9d7a6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:32 +0000
Subject: [PATCH 15/32] fix: CpioInputStream: sizes from 2 GiB on, damaged
 fields, reading past a name that is not terminated

---
 include/strigi/cpioinputstream.h |  2 +-
 lib/cpioinputstream.cpp          | 29 ++++++++++++++++++-----------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/include/strigi/cpioinputstream.h b/include/strigi/cpioinputstream.h
index ec44ea7..1ea003d 100644
--- a/include/strigi/cpioinputstream.h
+++ b/include/strigi/cpioinputstream.h
@@ -31,7 +31,7 @@ private:
     char padding;
 
     void readHeader();
-    int32_t readHexField(const char *b);
+    int64_t readHexField(const char *b);
 public:
     explicit CpioInputStream(InputStream* input);
     ~CpioInputStream();
diff --git a/lib/cpioinputstream.cpp b/lib/cpioinputstream.cpp
index 5ae2f13..c8a5710 100644
--- a/lib/cpioinputstream.cpp
+++ b/lib/cpioinputstream.cpp
@@ -60,11 +60,8 @@ CpioInputStream::nextEntry() {
         }
     }
     readHeader();
+    if (m_status) return 0;
     m_entrystream = new SubInputStream(m_input, m_entryinfo.size);
-    if (m_status) {
-        delete m_entrystream;
-        m_entrystream = 0;
-    }
     return m_entrystream;
 }
 void
@@ -99,11 +96,17 @@ CpioInputStream::readHeader() {
     }
     m_entryinfo.size = readHexField(b+54);
     m_entryinfo.mtime = readHexField(b+46);
-    int32_t filenamesize = readHexField(b+94);
+    const int64_t namesize = readHexField(b+94);
     if (m_status) {
         m_error = "Error parsing entry field.";
         return;
     }
+    if (namesize > 0x7ffffff0) {
+        m_status = Error;
+        m_error = "CPIO entry name is too long.";
+        return;
+    }
+    int32_t filenamesize = (int32_t)namesize;
     char namepadding = (char)((filenamesize+2) % 4);
     if (namepadding) namepadding = (char)(4 - namepadding);
     padding = (char)(m_entryinfo.size % 4);
@@ -111,7 +114,7 @@ CpioInputStream::readHeader() {
 
     // read filename
     toread = filenamesize + namepadding;
-    nread = m_input->read(b, toread, toread);
+    nread = (toread) ?m_input->read(b, toread, toread) :0;
     if (nread != toread) {
         m_error = "Error reading cpio entry name.";
         m_status = Error;
@@ -120,6 +123,7 @@ CpioInputStream::readHeader() {
     int32_t len = filenamesize - 1;
     if (len > 2 && b[0] == '.' && b[1] == '/') {
         b += 2;
+        filenamesize -= 2;
     }
     // check if the name is not shorter than specified
     len = 0;
@@ -131,19 +135,22 @@ CpioInputStream::readHeader() {
         m_status = Eof;
     }
 }
-int32_t
+int64_t
 CpioInputStream::readHexField(const char *b) {
-    int32_t val = 0;
+    int64_t val = 0;
     char c;
     for (unsigned char i=0; i<8; ++i) {
         val <<= 4;
         c = b[i];
-        if (c > 'F') {
+        if (c >= 'a' && c <= 'f') {
             val += c - 87;
-        } else if (c > '9') {
+        } else if (c >= 'A' && c <= 'F') {
             val += c - 55;
-        } else {
+        } else if (c >= '0' && c <= '9') {
             val += c - 48;
+        } else {
+            m_status = Error;
+            return 0;
         }
     }
     return val;
-- 
2.43.0


From 90cb845b085e63bff6ef52bbb6a4f04b59c44d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:53 +0000
Subject: [PATCH 16/32] fix: BZ2InputStream: release of an uninitialised
 decompressor after a wrong magic, error without message on premature end

---
 lib/bz2inputstream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bz2inputstream.cpp b/lib/bz2inputstream.cpp
index d4ec6b4..98c505e 100644
--- a/lib/bz2inputstream.cpp
+++ b/lib/bz2inputstream.cpp
@@ -50,7 +50,7 @@ BZ2InputStream::BZ2InputStream(InputStream* input) :p(new Private(this, input)){
 BZ2InputStream::Private::Private(BZ2InputStream* bis, InputStream* i)
         :p(bis), input(i) {
     // initialize values that signal state
-    this->input = input;
+    std::memset(&bzstream, 0, sizeof(bzstream));
 
     // check first bytes of stream before allocating buffer
     if (!checkMagic()) {
@@ -111,7 +111,7 @@ BZ2InputStream::Private::readFromStream() {
     const char* inStart;
     int32_t nread;
     nread = input->read(inStart, 1, 0);
-    if (nread <= -1) {
+    if (nread < -1) {
         p->m_status = Error;
         p->m_error = input->error();
     } else if (nread < 1) {
-- 
2.43.0


From 90b592f56aee2f2123f72d7d89c561f10ebe1729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:53 +0000
Subject: [PATCH 17/32] fix: LZMAInputStream: error without message on
 premature end

---
 lib/lzmainputstream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lzmainputstream.cpp b/lib/lzmainputstream.cpp
index bfec55a..594f42c 100644
--- a/lib/lzmainputstream.cpp
+++ b/lib/lzmainputstream.cpp
@@ -107,7 +107,7 @@ void
 LZMAInputStream::Private::readFromStream() {
     // read data from the input stream
     avail_in = input->read(next_in, 1, 0);
-    if (avail_in <= -1) {
+    if (avail_in < -1) {
         p->m_status = Error;
         p->m_error = input->error();
     } else if (avail_in < 1) {
-- 
2.43.0


From c20bce793ac509d172f65ac0ebd61840c13211f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:50 +0000
Subject: [PATCH 18/32] fix: ZipInputStream: members of 2 GiB and more were
 refused, truncated or damaged members passed as the end of the archive

---
 include/strigi/zipinputstream.h |  2 +-
 lib/zipinputstream.cpp          | 23 ++++++++++++++++-------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/strigi/zipinputstream.h b/include/strigi/zipinputstream.h
index ef0c964..90667c6 100644
--- a/include/strigi/zipinputstream.h
+++ b/include/strigi/zipinputstream.h
@@ -40,7 +40,7 @@ private:
     // information relating to the current entry
     InputStream* compressedEntryStream;
     GZipInputStream *uncompressionStream;
-    int32_t entryCompressedSize;
+    uint32_t entryCompressedSize;
     int32_t compressionMethod;
 
     void readFileName(int32_t len);
diff --git a/lib/zipinputstream.cpp b/lib/zipinputstream.cpp
index bd2a20c..4a7ee25 100644
--- a/lib/zipinputstream.cpp
+++ b/lib/zipinputstream.cpp
@@ -58,7 +58,14 @@ ZipInputStream::nextEntry() {
 	// if this entry is a compressed entry of know size, we can skip to
 	// the end by skipping in the compressed stream, without decompressing
         if (compressedEntryStream) {
-            compressedEntryStream->skip(compressedEntryStream->size());
+            while (compressedEntryStream->status() == Ok) {
+                compressedEntryStream->skip(compressedEntryStream->size());
+            }
+            if (compressedEntryStream->status() == Error) {
+                m_status = Error;
+                m_error = compressedEntryStream->error();
+                return NULL;
+            }
             delete compressedEntryStream;
             compressedEntryStream = 0;
             delete uncompressionStream;
@@ -73,6 +80,8 @@ ZipInputStream::nextEntry() {
                 if (n != 0x08074b50) {
                     m_input->reset(p);
                 }
+            } else if (n > 0) {
+                m_input->reset(p);
             }
         } else {
             int64_t size = m_entrystream->size();
@@ -82,6 +91,11 @@ ZipInputStream::nextEntry() {
             while (m_entrystream->status() == Ok) {
                 m_entrystream->skip(size);
             }
+            if (m_entrystream->status() == Error) {
+                m_status = Error;
+                m_error = m_entrystream->error();
+                return NULL;
+            }
             if (m_entryinfo.size < 0) {
                 // skip the data descriptor that occurs after the data
                 const char* c;
@@ -185,11 +199,6 @@ ZipInputStream::readHeader() {
     m_entryinfo.size = readLittleEndianUInt32(hb + 22);
     // read 4 bytes into the length of the compressed size
     entryCompressedSize = readLittleEndianUInt32(hb + 18);
-    if (entryCompressedSize < 0) {
-        m_status = Error;
-        m_error = "Corrupt zip file with negative compressed size.";
-        return;
-    }
     compressionMethod = readLittleEndianUInt16(hb + 8);
     int32_t generalBitFlags = readLittleEndianUInt16(hb+6);
     if (generalBitFlags & 8) { // is bit 3 set?
@@ -204,7 +213,7 @@ ZipInputStream::readHeader() {
             return;
         }
         m_entryinfo.size = -1;
-        entryCompressedSize = -1;
+        entryCompressedSize = 0;
     }
     unsigned long dost = readLittleEndianUInt32(hb+10);
     m_entryinfo.mtime = dos2unixtime(dost);
-- 
2.43.0


From 6c94967f8b5f2eb6f1ebfc4a554b3f654d0e91da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:50 +0000
Subject: [PATCH 19/32] fix: LZMAInputStream: data shorter than announced was
 accepted

---
 lib/lzmainputstream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/lzmainputstream.cpp b/lib/lzmainputstream.cpp
index 594f42c..4d352df 100644
--- a/lib/lzmainputstream.cpp
+++ b/lib/lzmainputstream.cpp
@@ -165,6 +165,11 @@ LZMAInputStream::Private::fillBuffer(char* start, int32_t space) {
         }
         p->m_size = bytesDecompressed;
     } else if (status == LZMA_STATUS_FINISHED_WITH_MARK) {
+        if (p->m_size != -1 && p->m_size != bytesDecompressed) {
+            p->m_error = "unexpected end";
+            p->m_status = Error;
+            return -1;
+        }
         p->m_size = bytesDecompressed;
     }
     return (int32_t)outProcessed;
-- 
2.43.0


From b5b064db7811a2aff6739eae567958d53003020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:50 +0000
Subject: [PATCH 20/32] fix: RpmInputStream: overflow of header sizes led to
 reads outside the header

---
 lib/rpminputstream.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lib/rpminputstream.cpp b/lib/rpminputstream.cpp
index 9673284..e72fb90 100644
--- a/lib/rpminputstream.cpp
+++ b/lib/rpminputstream.cpp
@@ -46,6 +46,15 @@ RpmInputStream::checkHeader(const char* data, int32_t datasize) {
     bool ok = memcmp(data, magic, 6) == 0;
     return ok;
 }
+/**
+ * Check that an index of nindex entries and a store of hsize bytes are of a
+ * size that can be read in one go.
+ **/
+static bool
+validSizes(int32_t nindex, int32_t hsize) {
+    return nindex >= 0 && hsize >= 0
+        && (int64_t)nindex*16 + hsize <= 0x7ffffff0;
+}
 RpmInputStream::RpmInputStream(InputStream* input)
         : SubStreamProvider(input), headerinfo(0) {
     uncompressionStream = NULL;
@@ -68,6 +77,10 @@ RpmInputStream::RpmInputStream(InputStream* input)
     }
     int32_t nindex = readBigEndianInt32(b+8);
     int32_t hsize = readBigEndianInt32(b+12);
+    if (!validSizes(nindex, hsize)) {
+        m_error = "invalid sizes in signature\n";
+        return;
+    }
     int32_t sz = nindex*16+hsize;
     if (sz%8) {
         sz+=8-sz%8;
@@ -84,6 +97,10 @@ RpmInputStream::RpmInputStream(InputStream* input)
     }
     nindex = readBigEndianInt32(b+8);
     hsize = readBigEndianInt32(b+12);
+    if (!validSizes(nindex, hsize)) {
+        m_error = "invalid sizes in header\n";
+        return;
+    }
     int32_t size = nindex*16+hsize;
     if (m_input->read(b, size, size) != size) {
         m_error = "could not read header\n";
-- 
2.43.0


From 9aeb7b8fbc469b9f7613ecdf57ca41c69ad0bc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:56 +0000
Subject: [PATCH 21/32] fix: OleInputStream: damaged documents led to reads
 outside the data, double frees and unreported errors, some small streams were
 skipped

---
 lib/oleinputstream.cpp | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/lib/oleinputstream.cpp b/lib/oleinputstream.cpp
index 343e1d5..f0465d3 100644
--- a/lib/oleinputstream.cpp
+++ b/lib/oleinputstream.cpp
@@ -114,6 +114,7 @@ OleEntryStream::fillBuffer(char* start, int32_t space) {
         d = parent->getCurrentSmallBlock();
         if (d == 0) {
             m_status = Error;
+            m_error = "Invalid OLE stream.";
             fprintf(stderr, "error in small blocks\n");
 	    return -1;
         }
@@ -143,6 +144,7 @@ OleEntryStream::fillBuffer(char* start, int32_t space) {
             if (parent->currentDataBlock != -2 || done != m_size) {
                 fprintf(stderr, "error: %i\n", parent->currentDataBlock);
                 m_status = Error;
+                m_error = "Invalid OLE stream.";
                 n = -1;
             }
         }
@@ -155,7 +157,7 @@ OleInputStream::OleInputStream(InputStream* input) :SubStreamProvider(input),
 }
 bool
 OleInputStream::Private::readInt32(int32_t offset, int32_t& val) {
-    if (offset < 0 || offset + 4 >= size) {
+    if (offset < 0 || offset > size - 4) {
         stream->m_status = Error;
         stream->m_error = string("pointer out of range.");
         return false;
@@ -180,14 +182,13 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
     int32_t sBatOffset = readLittleEndianInt32(data+0x3c);
     int32_t xBatOffset = readLittleEndianInt32(data+0x44);
     int32_t nXBat = readLittleEndianInt32(data+0x48);
-    if (!checkHeader(data, size) || nBat < 0 || nBat > 128*nXBat+109
-            || nXBat < 0) {
+    if (!checkHeader(data, size) || nBat < 0 || nXBat < 0
+            || nBat > 128*(int64_t)nXBat+109) {
         stream->m_status = Error;
         stream->m_error = "Invalid OLE file.";
         return;
     }
     int32_t max = 0;
-    batIndex.reserve(nBat);
     data += 76;
     for (int i = 0; i < ::min(109, nBat); ++i) {
         int32_t p;
@@ -196,10 +197,12 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
         if (p > max) max = p;
     }
     if (ptOffset > max) max = ptOffset;
-    if (128*(nBat-1) > max) max = 128*(nBat-1);
+    int64_t required = 128*(int64_t)(nBat-1);
+    if (required < max) required = max;
+    required = (required+2)*512;
 
-    int32_t toread = (max+2)*512;
-    if (input->size() >= 0 && input->size() < toread) {
+    int32_t toread;
+    if (input->size() >= 0 && input->size() < required) {
         stream->m_status = Error;
         stream->m_error = "File is incomplete.";
         return;
@@ -207,7 +210,7 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
     toread = (input->size() > 0) ?(int32_t)input->size() :10000000;
     size = input->read(data, toread, toread);
     input->reset(0);
-    if (size != input->size()) {
+    if (size != input->size() || size < required) {
         stream->m_status = Error;
         stream->m_error
             = string("File cannot be read completely: ")+input->error();
@@ -217,7 +220,7 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
 
     // read any remaining BAT entries from XBAT blocks
     xBatOffset = 512 + 512 * xBatOffset;
-    for (int j = 0; j < nXBat; ++j) {
+    for (int j = 0; j < nXBat && (int)batIndex.size() < nBat; ++j) {
         for (int i = 0; i<127 && (int)batIndex.size() < nBat; ++i) {
             int32_t p;
             if (!readInt32(4*i + xBatOffset, p)) { return; }
@@ -240,7 +243,8 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
 
     // collect all sbat blocks
 //    fprintf(stderr, "sbat blocks\n");
-    while (sBatOffset >= 0 && sbatIndex.size() < 1000) {
+    while (sBatOffset >= 0 && sBatOffset <= maxindex
+            && sbatIndex.size() < 1000) {
         sbatIndex.push_back(sBatOffset);
 /*        const char* b = data+(1+sBatOffset)*512;
         fprintf(stderr, "%4.i\n", sBatOffset);
@@ -256,7 +260,8 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
     // read the info for the root entry
     currentDataBlock = (1+ptOffset)*512 + 0x74;
     if (!readInt32(currentDataBlock, currentDataBlock)) { return; }
-    while (currentDataBlock >= 0 && sbatbIndex.size() < 16000) {
+    while (currentDataBlock >= 0 && currentDataBlock <= maxindex
+            && sbatbIndex.size() < 16000) {
         sbatbIndex.push_back(currentDataBlock);
         currentDataBlock = nextBlock(currentDataBlock);
     }
@@ -266,6 +271,8 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
     currentTableIndex = 0;
 }
 OleInputStream::~OleInputStream() {
+    // the entry stream belongs to p
+    m_entrystream = 0;
     delete p;
 }
 OleInputStream::Private::~Private() {
@@ -372,14 +379,17 @@ OleInputStream::Private::readEntryInfo() {
     currentDataBlock = readLittleEndianInt32(d+0x74);
     currentStreamSize = readLittleEndianInt32(d+0x78);
     stream->m_entryinfo.size = currentStreamSize;
-    if (currentDataBlock > maxindex || currentStreamSize <= 0) {
+    // streams smaller than 4096 bytes are stored in small blocks
+    int32_t maxblock = (currentStreamSize < 4096) ?maxsindex :maxindex;
+    if (currentDataBlock > maxblock || currentStreamSize <= 0) {
         currentDataBlock = -1;
     }
 }
 InputStream*
 OleInputStream::nextEntry() {
+    if (m_status != Ok) return 0;
     m_entrystream = p->nextEntry();
-    if (!m_entrystream) m_status = Eof;
+    if (!m_entrystream && m_status == Ok) m_status = Eof;
     return m_entrystream;
 }
 InputStream*
@@ -389,6 +399,10 @@ OleInputStream::Private::nextEntry() {
         if (++currentTableIndex == 4) {
             currentTableBlock = nextBlock(currentTableBlock);
             if (currentTableBlock < 0) {
+                if (currentTableBlock != -2) {
+                    stream->m_status = Error;
+                    stream->m_error = "Damaged OLE directory.";
+                }
                 return 0;
             }
             currentTableIndex = 0;
-- 
2.43.0


From 438bf615ba702b5546bf63af5b12e7739b437dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:38 +0000
Subject: [PATCH 22/32] fix: EncodingInputStream: converted data was padded
 with invalid bytes when a character did not fit, crash without encoding

---
 lib/encodinginputstream.cpp | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/lib/encodinginputstream.cpp b/lib/encodinginputstream.cpp
index 7aca985..4ba4133 100644
--- a/lib/encodinginputstream.cpp
+++ b/lib/encodinginputstream.cpp
@@ -40,14 +40,21 @@ public:
     iconv_t converter;
     int32_t charsLeft;
     bool finishedEncoding;
+    // converted bytes for which there was no space yet
+    char pending[16];
+    int32_t pendingPos;
+    int32_t pendingLeft;
 
     Private(EncodingInputStream* eis, InputStream* i, const char* inenc,
             const char* outenc) :p(eis), input(i),
-            converter((iconv_t)-1), charsLeft(0), finishedEncoding(false) {
+            converter((iconv_t)-1), charsLeft(0), finishedEncoding(false),
+            pendingPos(0), pendingLeft(0) {
         if (outenc == 0) {
             outenc = "UTF-8";
         }
-        converter = iconv_open(outenc, inenc);
+        if (inenc) {
+            converter = iconv_open(outenc, inenc);
+        }
     }
     ~Private() {
         if (converter != (iconv_t) -1) {
@@ -55,6 +62,13 @@ public:
         }
     }
     int32_t decode(char* start, int32_t space);
+    int32_t writePending(char* start, int32_t space) {
+        int32_t n = (space < pendingLeft) ?space :pendingLeft;
+        std::memcpy(start, pending + pendingPos, n);
+        pendingPos += n;
+        pendingLeft -= n;
+        return n;
+    }
 };
 
 EncodingInputStream::EncodingInputStream(InputStream* s, const char* inenc,
@@ -109,7 +123,7 @@ EncodingInputStream::Private::decode(char* start, int32_t space) {
         case E2BIG: // output buffer is full
             charbuf.readPos += charbuf.avail - inbytesleft;
             charbuf.avail = (int32_t)inbytesleft;
-            nwritten = space;
+            nwritten = (int32_t)(outbuf - start);
             break;
         default:
             char tmp[10];
@@ -132,6 +146,9 @@ EncodingInputStream::Private::decode(char* start, int32_t space) {
 }
 int32_t
 EncodingInputStream::fillBuffer(char* start, int32_t space) {
+    if (p->pendingLeft > 0) {
+        return p->writePending(start, space);
+    }
     // fill up charbuf
     if (p->input && p->charbuf.readPos == p->charbuf.start) {
         const char *begin;
@@ -158,7 +175,16 @@ EncodingInputStream::fillBuffer(char* start, int32_t space) {
         p->charbuf.avail = numRead + p->charbuf.avail;
     }
     // decode
-    int32_t n = p->decode(start, space);
+    if (space >= (int32_t)sizeof(p->pending)) {
+        return p->decode(start, space);
+    }
+    // a single character may need more space than there is
+    int32_t n = p->decode(p->pending, sizeof(p->pending));
     //printf("decoded %i\n", n);
-    return n;
+    if (n <= 0) {
+        return n;
+    }
+    p->pendingPos = 0;
+    p->pendingLeft = n;
+    return p->writePending(start, space);
 }
-- 
2.43.0


From b8f723314a6bef575a121611731daa92e5ffc4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:38 +0000
Subject: [PATCH 23/32] fix: SdfInputStream: the first character of molecules
 was lost, delimiters between two reads were missed, input that cannot be
 moved back gave wrong data

---
 lib/sdfinputstream.cpp | 58 +++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/lib/sdfinputstream.cpp b/lib/sdfinputstream.cpp
index 16e41d7..7a55ac2 100644
--- a/lib/sdfinputstream.cpp
+++ b/lib/sdfinputstream.cpp
@@ -82,38 +82,38 @@ InputStream*
 SdfInputStream::nextEntry() {
     if (m_status != Ok) return 0;
 
-    m_input->reset(previousStartOfDelimiter);
     int32_t nread = 0;
 
-    // read anything that's left over in the previous substream
+    // go to the end of the previous substream
     if (substream) {
-        substream->reset(0);
         const char* dummy;
-        while (substream->status() == Ok) {
-            substream->read(dummy, 1, 0);
-        }
-        if (substream->status() == Error) {
-            m_status = Error;
-        }
-        if (substream && substream != m_entrystream) {
+        if (substream != m_entrystream) {
             delete substream;
         }
         substream = 0;
         delete m_entrystream;
         m_entrystream = 0;
-    
-        m_input->reset(previousStartOfDelimiter);
-    
+
+        if (m_input->position() < previousStartOfDelimiter) {
+            m_input->skip(previousStartOfDelimiter - m_input->position());
+        }
+        if (m_input->status() == Error
+                || m_input->position() != previousStartOfDelimiter) {
+            m_status = Error;
+            m_error = "Input cannot be read up to the next molecule: ";
+            m_error += m_input->error();
+            return 0;
+        }
+
         // eat delimiter and following newlines
-        if (m_input->status() == Ok) {
-            nread = m_input->read(dummy, 4, 4);
-            if (nread == 4 && strncmp(dummy, delimiter.c_str(), 4) == 0) {
-                m_input->read(dummy, 1, 1);
-                while (m_input->status() == Ok && (
-                        strncmp(dummy, "\n", 1) == 0
-                        || strncmp(dummy, "\r", 1) == 0)) {
-                    m_input->read(dummy, 1, 1);
-                }
+        nread = m_input->read(dummy, 4, 4);
+        if (nread == 4 && strncmp(dummy, delimiter.c_str(), 4) == 0) {
+            do {
+                nread = m_input->read(dummy, 1, 1);
+            } while (nread == 1 && (*dummy == '\n' || *dummy == '\r'));
+            if (nread == 1) {
+                // the last character read belongs to the next entry
+                m_input->reset(m_input->position() - 1);
             }
         }
     }
@@ -135,18 +135,28 @@ SdfInputStream::nextEntry() {
                 len = end - start + total;
                 break;
             }
+            if (nread > 3 && m_input->status() == Ok) {
+                // the delimiter may have been read only partly
+                nread -= 3;
+                m_input->reset(m_input->position() - 3);
+            }
             total += nread;
         }    
     }    
     if (m_input->status() == Error) {
         m_status = Error;
+        m_error = m_input->error();
         m_entrystream = 0;
         return 0;
     }
     
-    m_input->reset(pos);
-    
     if (len > 0) {
+        if (m_input->reset(pos) != pos) {
+            m_status = Error;
+            m_error = "Input cannot be moved back to the start of a molecule.";
+            m_entrystream = 0;
+            return 0;
+        }
         // this stream is an SD
         substream = new SubInputStream(m_input, len);
         previousStartOfDelimiter = m_input->position() + len;
-- 
2.43.0


From 34fcc88a46b905682b2418f64ece96ab64832fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:38 +0000
Subject: [PATCH 24/32] fix: ProcessInputStream: input was lost, deadlock with
 the process, wrong signal, errors unreported

---
 lib/processinputstream.cpp | 107 +++++++++++++++++++++++++++++--------
 1 file changed, 85 insertions(+), 22 deletions(-)

diff --git a/lib/processinputstream.cpp b/lib/processinputstream.cpp
index 73dde00..c811f1c 100644
--- a/lib/processinputstream.cpp
+++ b/lib/processinputstream.cpp
@@ -20,6 +20,8 @@
 #include <strigi/processinputstream.h>
 #include <strigi/strigiconfig.h>
 #include <errno.h>
+#include <fcntl.h>
+#include <poll.h>
 #include <sys/wait.h>
 #include <unistd.h>
 #include <signal.h>
@@ -56,16 +58,17 @@ ProcessInputStream::ProcessInputStream(const vector<string>& a,
     }
 }
 ProcessInputStream::~ProcessInputStream() {
-    if (fdin > 0) {
+    if (fdin >= 0) {
         close(fdin);
     }
-    if (fdout > 0) {
+    if (fdout >= 0) {
         close(fdout);
     }
     if (pid != -1) {
-        kill(SIGTERM, pid);
+        kill(pid, SIGTERM);
         int status;
-        waitpid(pid, &status , 0);
+        while (waitpid(pid, &status , 0) == -1 && errno == EINTR) {
+        }
     }
     const char* const* p = args;
     while (*p) {
@@ -73,17 +76,41 @@ ProcessInputStream::~ProcessInputStream() {
     }
     delete [] args;
 }
+/**
+ * Write without the risk of being ended by SIGPIPE when the process does not
+ * read its input.
+ **/
+static ssize_t
+writeWithoutSigPipe(int fd, const char* b, size_t n) {
+    sigset_t pipeset, oldset, pending;
+    sigemptyset(&pipeset);
+    sigaddset(&pipeset, SIGPIPE);
+    sigpending(&pending);
+    pthread_sigmask(SIG_BLOCK, &pipeset, &oldset);
+    ssize_t m = write(fd, b, n);
+    int error = errno;
+    if (m < 0 && error == EPIPE && !sigismember(&pending, SIGPIPE)) {
+        // remove the signal that was caused here
+        sigpending(&pending);
+        if (sigismember(&pending, SIGPIPE)) {
+            int sig;
+            sigwait(&pipeset, &sig);
+        }
+    }
+    pthread_sigmask(SIG_SETMASK, &oldset, 0);
+    errno = error;
+    return m;
+}
 void
 ProcessInputStream::writeToPipe() {
     // read from the inputstream
     int64_t pos = input->position();
     const char* b;
     int32_t n = input->read(b, 1, 0);
-    if (n <= 0 || input->status() == Eof) {
+    if (n <= 0) {
         if (input->status() == Error) {
             m_status = Error;
             m_error = input->error();
-            n = 0;
         }
         // close the pipe if no more output is available
         input = 0;
@@ -91,23 +118,45 @@ ProcessInputStream::writeToPipe() {
         fdin = -1;
     } else {
         // write into the pipe
-        ssize_t m = write(fdin, b, n);
-        if (m < 0) {
+        ssize_t m = writeWithoutSigPipe(fdin, b, n);
+        if (m < 0 && errno == EPIPE) {
+            // the process does not want more input
+            input = 0;
+            close(fdin);
+            fdin = -1;
+        } else if (m < 0 && errno != EAGAIN && errno != EINTR) {
             m_error = strerror(errno);
             m_status = Error;
             input = 0;
         } else if (m != n) {
-            input->reset(pos+n);
+            input->reset(pos+((m > 0) ?m :0));
         }
     }
 }
 int32_t
 ProcessInputStream::fillBuffer(char* start, int32_t space) {
-    if (fdout <= 0) return -1;
-    if (input && input->status() == Ok) {
+    if (fdout < 0) return -1;
+    // provide the process with input until there is output
+    while (fdin >= 0) {
+        struct pollfd fds[2];
+        fds[0].fd = fdout;
+        fds[0].events = POLLIN;
+        fds[1].fd = fdin;
+        fds[1].events = POLLOUT;
+        if (poll(fds, 2, -1) == -1) {
+            if (errno == EINTR) continue;
+            m_error = strerror(errno);
+            m_status = Error;
+            return -2;
+        }
+        if (fds[0].revents) break;
         writeToPipe();
+        if (m_status == Error) return -2;
     }
-    ssize_t n = ::read(fdout, start, space);
+    ssize_t n;
+    do {
+        n = ::read(fdout, start, space);
+    } while (n < 0 && errno == EINTR);
     if (n < 0) {
         m_error = strerror(errno);
         m_status = Error;
@@ -115,7 +164,10 @@ ProcessInputStream::fillBuffer(char* start, int32_t space) {
     }
     if (n <= 0) {
         close(fdout);
-        fdout = 0;
+        fdout = -1;
+        if (n == 0) {
+            n = -1;
+        }
     }
     return (int32_t)n;
 }
@@ -123,13 +175,15 @@ void
 ProcessInputStream::runCmd() {
     int p[2];
     if (pipe(p) == -1) {
-        fprintf(stderr,"ProcessInputStream::runCmd: %s\n", strerror(errno));
+        m_error = strerror(errno);
+        m_status = Error;
         return;
     }
     
     if( (pid=fork()) == -1) {
         /* something went wrong */
-        fprintf(stderr,"ProcessInputStream::runCmd: %s\n", strerror(errno));
+        m_error = strerror(errno);
+        m_status = Error;
         close (p[0]);
         close (p[1]);
         return;
@@ -144,8 +198,7 @@ ProcessInputStream::runCmd() {
         close(2);
         char *const *unconstargs = (char *const *) (args);
         execve(args[0], unconstargs, environ);
-        fprintf(stderr, "%s\n", strerror(errno));
-        exit(EXIT_FAILURE);
+        _exit(EXIT_FAILURE);
     }
     close(p[1]);
     fdout = p[0];
@@ -154,14 +207,23 @@ void
 ProcessInputStream::runCmdWithInput() {
     int pin[2];
     int pout[2];
-    if (pipe(pin) == -1 || pipe(pout) == -1) {
-        fprintf(stderr,"ProcessInputStream::runCmd: %s\n", strerror(errno));
+    if (pipe(pin) == -1) {
+        m_error = strerror(errno);
+        m_status = Error;
+        return;
+    }
+    if (pipe(pout) == -1) {
+        m_error = strerror(errno);
+        m_status = Error;
+        close (pin[0]);
+        close (pin[1]);
         return;
     }
     
     if( (pid=fork()) == -1) {
         /* something went wrong */
-        fprintf(stderr,"ProcessInputStream::runCmdWithInput: fork error\n");
+        m_error = strerror(errno);
+        m_status = Error;
         close (pin[0]);
         close (pin[1]);
         close (pout[0]);
@@ -179,11 +241,12 @@ ProcessInputStream::runCmdWithInput() {
         close(2);
         char *const *unconstargs = (char *const *) (args);
         execve(args[0], unconstargs, environ);
-        fprintf(stderr, "%s\n", strerror(errno));
-        exit(EXIT_FAILURE);
+        _exit(EXIT_FAILURE);
     }
     close(pin[0]);
     close(pout[1]);
     fdout = pout[0];
     fdin = pin[1];
+    // writing must not wait for a process that waits for its output to be read
+    fcntl(fdin, F_SETFL, fcntl(fdin, F_GETFL, 0) | O_NONBLOCK);
 }
-- 
2.43.0


From 5653529e3c12828490d2429073dfe3b9b368602f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:44 +0000
Subject: [PATCH 25/32] fix: ListingInProgress: write past the stack for deep
 nesting, lost entries for repeated names, LZMA archives were not recognised,
 leaks

---
 lib/listinginprogress.cpp | 35 +++++++++++++++++++++++++++++------
 lib/listinginprogress.h   |  1 +
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index d813d03..4e9291c 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -64,7 +64,23 @@ addEntry(ArchiveEntryCache::SubEntry* parent,
         parent = child;
     }
     // this is what we came for: add the entry to the parent
-    parent->entries[name] = se;
+    child = parent->entries[name];
+    if (child == NULL) {
+        parent->entries[name] = se;
+        return;
+    }
+    // there already is an entry with this path: update it and keep the
+    // entries below it
+    child->entry = se->entry;
+    ArchiveEntryCache::SubEntryMap::iterator i = se->entries.begin();
+    while (i != se->entries.end()) {
+        if (child->entries.insert(*i).second) {
+            se->entries.erase(i++);
+        } else {
+            ++i;
+        }
+    }
+    delete se;
 }
 }
 
@@ -115,7 +131,7 @@ subStreamProvider(const Subs& subs, InputStream* input,
                 s->reset(0);
             }
         }
-        n = s->read(c, 2, 0);
+        n = s->read(c, 16, 0);
         s->reset(0);
         if (LZMAInputStream::checkHeader(c, n)) {
             InputStream* ns = new LZMAInputStream(s);
@@ -148,8 +164,10 @@ subStreamProvider(const Subs& subs, InputStream* input,
             }
             // even though the header was good, this stream has no substream
             delete ss;
-            s->reset(0);
-            n = s->read(c, 1, 0);
+            if (s->reset(0) != 0) {
+                break;
+            }
+            n = s->read(c, 1024, 0);
             s->reset(0);
         }
     }
@@ -173,11 +191,15 @@ ListingInProgress::ListingInProgress(const Subs& sbs,
         currentdepth = 0;
     } else {
         currentdepth = -1;
+        delete stream;
+        stream = 0;
     }
 }
 ListingInProgress::~ListingInProgress() {
     for (size_t i=0; i<stack.size(); ++i) {
         free(stack[i].streams);
+        // entries that have not been added to their parent yet
+        if (i > 0) delete stack[i].entry;
     }
     delete root;
     delete stream;
@@ -199,8 +221,8 @@ ListingInProgress::fillEntry(InputStream* s) {
 }
 int
 ListingInProgress::nextEntry(int depth) {
-    if (stack.size() < (size_t)(depth+1)) {
-        stack.resize(depth+1);
+    if (stack.size() < (size_t)(depth+2)) {
+        stack.resize(depth+2);
     }
     StackEntry* e = &stack[depth];
     StackEntry* ce = &stack[depth+1];
@@ -228,6 +250,7 @@ ListingInProgress::nextEntry(int depth) {
             ce->entry->entry.size = max(es->size(), (int64_t)0);
         }
         addEntry(e->entry, ce->entry);
+        ce->entry = 0;
         if (!e->p->nextEntry()) {
             free(e->streams);
             e->p = 0;
diff --git a/lib/listinginprogress.h b/lib/listinginprogress.h
index a7070fe..355792b 100644
--- a/lib/listinginprogress.h
+++ b/lib/listinginprogress.h
@@ -91,6 +91,7 @@ public:
     bool nextEntry(const ArchiveEntryCache::SubEntry* entry);
     void ref() { refcount++; }
     bool unref() { return --refcount == 0; }
+    bool isShared() const { return refcount > 1; }
 };
 
 
-- 
2.43.0


From f22a32263cd9a45cdf937c01093585729f3c8cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:44 +0000
Subject: [PATCH 26/32] fix: ArchiveReader: members whose name starts with that
 of another, every entry was an archive, dangling listings and cache entries

---
 lib/archivereader.cpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index c5d1340..a024fa8 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -40,7 +40,7 @@ private:
     const ArchiveEntryCache::SubEntry* entry;
     set<std::string> done;
 public:
-    const std::string url;
+    std::string url;
     explicit Private(const vector<EntryInfo>& v, int p = 0)
         :pos(p), entries(v), listing(NULL), entry(NULL) {
     }
@@ -48,17 +48,23 @@ public:
             :pos(0), listing(l), entry(NULL), url(u) {
         listing->ref();
     }
+    Private(const Private& a)
+            :pos(a.pos), entries(a.entries), listing(a.listing),
+             entry(a.entry), done(a.done), url(a.url) {
+        if (listing) listing->ref();
+    }
     ~Private() {
         if (listing && listing->unref()) delete listing;
     }
     void operator=(const Private& a) {
         pos = a.pos;
         entries = a.entries;
+        if (a.listing) a.listing->ref();
         if (listing && listing->unref()) delete listing;
         listing = a.listing;
-        if (listing) listing->ref();
         entry = a.entry;
         done = a.done;
+        url = a.url;
     }
     bool
     nextEntry(EntryInfo& e) {
@@ -252,7 +258,7 @@ ArchiveReader::ArchiveReaderPrivate::positionedProvider(const string& url) {
         }
         // let sn point to the trailing part of the url
         const char* sn = url.c_str() + *i;
-        size_t len = url.length();
+        size_t len = url.length() - *i;
         bool nextstream = false;
         // try to open the first substream of the current SubStreamProvider
         substream = provider->currentEntry();
@@ -260,9 +266,12 @@ ArchiveReader::ArchiveReaderPrivate::positionedProvider(const string& url) {
             const EntryInfo& e = provider->entryInfo();
             // check that the filename matches at least one entry
             if (e.type == EntryInfo::File
-                    && e.filename.length() < len
+                    && e.filename.length() > 0
+                    && e.filename.length() <= len
                     && strncmp(e.filename.c_str(), sn,
-                           e.filename.length()) == 0) {
+                           e.filename.length()) == 0
+                    && (e.filename.length() == len
+                        || sn[e.filename.length()] == '/')) {
                 nextstream = true;
                 // skip the number of entries that are matched
                 size_t end = *i + e.filename.length();
@@ -330,7 +339,7 @@ ArchiveReader::ArchiveReaderPrivate::localStat(const std::string& url,
                 }
                 // the file has changed: it is removed from the cache
                 ArchiveEntryCache::RootSubEntry* rse = se->second;
-                cache.cache.erase(se->second->entry.filename);
+                cache.cache.erase(url);
                 delete rse;
             }
 
@@ -419,7 +428,7 @@ ArchiveReader::isArchive(const std::string& url) {
     if (p->localStat(url, e) != 0) {
         return false;
     }
-    return ((e.type & (EntryInfo::File | EntryInfo::Dir)) != 0);
+    return (e.type & EntryInfo::File) && (e.type & EntryInfo::Dir);
 }
 std::vector<EntryInfo>
 convert(const ArchiveEntryCache::SubEntry* entry) {
@@ -465,8 +474,11 @@ ArchiveReader::dirEntries(const std::string& url) {
     }
 
     if (lip) {
-        if (lip->isDone()) {
-            p->cache.cache[lip->url] = lip->root;
+        // the entries are moved to the cache when no other dirlister uses them
+        if (lip->isDone() && !lip->isShared()) {
+            ArchiveEntryCache::RootSubEntry*& root = p->cache.cache[lip->url];
+            delete root;
+            root = lip->root;
             lip->root = 0;
             p->listingsInProgress.erase(lip->url);
             if (lip->unref()) delete lip;
-- 
2.43.0


From 2189abe85ab1d79065c7977e25f65a7a49d96648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:35 +0000
Subject: [PATCH 27/32] fix: GZipCompressInputStream: an uninitialised
 compressor was released when initialisation failed

---
 lib/gzipcompressstream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/gzipcompressstream.cpp b/lib/gzipcompressstream.cpp
index 02cf43a..31efc14 100644
--- a/lib/gzipcompressstream.cpp
+++ b/lib/gzipcompressstream.cpp
@@ -45,7 +45,9 @@ GZipCompressInputStream::GZipCompressInputStream(InputStream* input, int level)
     int r = deflateInit(zstream, level);
     if (r != Z_OK) {
         m_error = "Error initializing GZipCompressInputStream.";
-        dealloc();
+        // there is no state that deflateEnd() could release
+        free(zstream);
+        zstream = 0;
         m_status = Error;
         return;
     }
-- 
2.43.0


From 9dbb3b12dd409bf6abe3ad28916e5746b0684b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:35 +0000
Subject: [PATCH 28/32] fix: SubStreamProviderProvider: debug output read past
 short input

---
 lib/substreamproviderprovider.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/lib/substreamproviderprovider.cpp b/lib/substreamproviderprovider.cpp
index b6b3ec8..c8d0b34 100644
--- a/lib/substreamproviderprovider.cpp
+++ b/lib/substreamproviderprovider.cpp
@@ -38,18 +38,14 @@ SubStreamProviderProvider::subStreamProvider(InputStream* input) {
     if (headersize <= 0) {
         return 0;
     }
-    fprintf(stderr, "%x%x%x%x\n", header[0], header[1], header[2], header[3]);
     if (MailInputStream::checkHeader(header, headersize)) {
         return new MailInputStream(input);
     }
     if (ZipInputStream::checkHeader(header, headersize)) {
-        fprintf(stderr, "zip!\n");
         return new ZipInputStream(input);
     }
     if (SdfInputStream::checkHeader(header, headersize)) {
-        fprintf(stderr, "sdf!\n");
         return new SdfInputStream(input);
     }
-    fprintf(stderr, "no match %i\n", headersize);
     return 0;
 }
-- 
2.43.0


From 85b014fc0dc5681cc43ce4de4bdc03bf1660bf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:30 +0000
Subject: [PATCH 29/32] fix: ArInputStream: read tables in a loop, many of them
 exhausted the stack

---
 include/strigi/arinputstream.h |  2 +-
 lib/arinputstream.cpp          | 17 +++++++++++------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/strigi/arinputstream.h b/include/strigi/arinputstream.h
index 6a110fa..4bf014d 100644
--- a/include/strigi/arinputstream.h
+++ b/include/strigi/arinputstream.h
@@ -29,7 +29,7 @@ private:
     // information relating to the current entry
     std::string gnufilenames;
 
-    void readHeader();
+    void readHeader(bool& table);
 public:
     explicit ArInputStream(InputStream* input);
     ~ArInputStream();
diff --git a/lib/arinputstream.cpp b/lib/arinputstream.cpp
index 2d4f340..eaf7a24 100644
--- a/lib/arinputstream.cpp
+++ b/lib/arinputstream.cpp
@@ -50,13 +50,18 @@ ArInputStream::nextEntry() {
         delete m_entrystream;
         m_entrystream = 0;
     }
-    readHeader();
-    if (m_status) return 0;
+    // tables of symbols or file names are not entries
+    bool table;
+    do {
+        table = false;
+        readHeader(table);
+        if (m_status) return 0;
+    } while (table);
     m_entrystream = new SubInputStream(m_input, m_entryinfo.size);
     return m_entrystream;
 }
 void
-ArInputStream::readHeader() {
+ArInputStream::readHeader(bool& table) {
     const char *b;
     int32_t toread;
     int32_t nread;
@@ -116,7 +121,7 @@ ArInputStream::readHeader() {
             }
             if (m_entryinfo.size == 0) {
                 gnufilenames.resize(0);
-                readHeader();
+                table = true;
                 return;
             }
             nread = m_input->read(b, (int32_t)m_entryinfo.size, (int32_t)m_entryinfo.size);
@@ -126,10 +131,10 @@ ArInputStream::readHeader() {
                 return;
             }
             gnufilenames.assign(b, (unsigned int)m_entryinfo.size);
-            readHeader();
+            table = true;
         } else if (b[1] == ' ') {
             m_input->skip(m_entryinfo.size);
-            readHeader();
+            table = true;
         } else {
             uint p = atoi(bc+1);
             if (gnufilenames.length() <= p) {
-- 
2.43.0


From 0890e4138e771faae94e7e68003a9ea6a021f931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:30 +0000
Subject: [PATCH 30/32] fix: TarInputStream: pass over './' entries in a loop,
 many of them exhausted the stack

---
 include/strigi/tarinputstream.h |  2 +-
 lib/tarinputstream.cpp          | 14 ++++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/strigi/tarinputstream.h b/include/strigi/tarinputstream.h
index 2cef99d..d92240f 100644
--- a/include/strigi/tarinputstream.h
+++ b/include/strigi/tarinputstream.h
@@ -45,7 +45,7 @@ private:
 
     void readFileName(int32_t len);
     const char* readHeader();
-    void parseHeader();
+    void parseHeader(bool& ignore);
     int64_t readOctalField(const char *b, int32_t offset);
     void readLongLink(const char *b);
 public:
diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index 00bc84f..cbff3c4 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -42,8 +42,13 @@ TarInputStream::nextEntry() {
         delete m_entrystream;
         m_entrystream = 0;
     }
-    parseHeader();
-    if (m_status) return 0;
+    // the entry './' is ignored
+    bool ignore;
+    do {
+        ignore = false;
+        parseHeader(ignore);
+        if (m_status) return 0;
+    } while (ignore);
     if (m_entryinfo.size >= 0) {
         m_entrystream = new SubInputStream(m_input, m_entryinfo.size);
     }
@@ -91,7 +96,7 @@ TarInputStream::checkHeader(const char* h, int32_t hsize) {
             || (h[147] && h[147] != ' ') || h[256]);
 }
 void
-TarInputStream::parseHeader() {
+TarInputStream::parseHeader(bool& ignore) {
     const char *hb;
 
     hb = readHeader();
@@ -163,7 +168,8 @@ TarInputStream::parseHeader() {
     if (m_entryinfo.filename.compare(0, 2, "./") == 0) {
         // skip initial './' part of filename
         if (m_entryinfo.filename.length() == 2) { // skip entry './'
-            return parseHeader();
+            ignore = true;
+            return;
         }
         m_entryinfo.filename.erase(0, 2);
     }
-- 
2.43.0


From a8d43a32d3b45f13579614a88ecb85c1171bbac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:41 +0000
Subject: [PATCH 31/32] fix: mail header lines folded with LF are unfolded like
 those with CRLF

---
 lib/mailinputstream.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index f83bed3..a089e67 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -193,6 +193,10 @@ HeaderDecoder::decodedHeaderValue(const char* v, uint32_t len) {
             // skip the CRLF WSP used for folding the header lines
             decoded.append(p, s-p);
             s = p = s + 3;
+        } else if (e-s > 2 && s[0] == 10 && (s[1] == 9 || s[1] == 32)) {
+            // the same in mails with lines that end in LF
+            decoded.append(p, s-p);
+            s = p = s + 2;
         } else {
             s++;
         }
-- 
2.43.0


From 6678090c6a97707ed383c0dfd59c1e70ccec7008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:56 +0000
Subject: [PATCH 32/32] fix: quoted mail parameters end at their closing quote

---
 lib/mailinputstream.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index a089e67..888853c 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -466,14 +466,19 @@ MailInputStream::Private::value(const char* n, const string& headerline) const {
         return value;
     }
     v += nl;
-    v += strspn(v, "= \n\r");
-    const char* vend = strchr(v, ';');
-    if (vend == 0) {
-        vend = hl + headerline.length();
-    }
-    if (*v == '"' && vend-v > 2) {
-        value.assign(v+1, vend-v-2);
+    v += strspn(v, "= \n\r\t");
+    if (*v == '"') {
+        // a quoted value ends at the next quote, it may contain semicolons
+        for (++v; *v && *v != '"'; ++v) {
+            if (*v == '\\' && (v[1] == '"' || v[1] == '\\')) ++v;
+            value += *v;
+        }
     } else {
+        const char* vend = strchr(v, ';');
+        if (vend == 0) {
+            vend = hl + headerline.length();
+        }
+        while (vend > v && isspace((unsigned char)vend[-1])) --vend;
         value.assign(v, vend-v);
     }
     return value;
-- 
2.43.0

