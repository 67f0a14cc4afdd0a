From d4315477cd48998b427b24564a20b37bcaa78d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:24 +0000
Subject: [PATCH 01/15] fix: FromJSON returned an empty body

---
 body/body.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/body/body.go b/body/body.go
index 1c84c41..141725f 100644
--- a/body/body.go
+++ b/body/body.go
@@ -202,7 +202,7 @@ func fromJSONImpl(v interface{}, isPretty bool) Body {
 			}
 		}
 	} else {
-		copy(dst, src)
+		dst = append(dst, src...)
 	}
 
 	return FromBytes(dst)
-- 
2.43.0


From 4a6cc5ad685300d3427d4ff84b4d29ca47b5ad2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:25 +0000
Subject: [PATCH 02/15] fix: WriteTo of an empty body reported io.EOF as an
 error

---
 body/empty.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/body/empty.go b/body/empty.go
index 94e752b..822e88e 100644
--- a/body/empty.go
+++ b/body/empty.go
@@ -96,7 +96,7 @@ func (body *emptyBody) WriteTo(w io.Writer) (int64, error) {
 		return 0, fs.ErrClosed
 	}
 
-	return 0, io.EOF
+	return 0, nil
 }
 
 func (body *emptyBody) Copy() (Body, error) {
-- 
2.43.0


From 9b0b905c6bfca00d79799166fff2c820144ae826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:26 +0000
Subject: [PATCH 03/15] fix: ReadAt of an empty body accepted negative offsets

---
 body/empty.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/body/empty.go b/body/empty.go
index 822e88e..e8eb96c 100644
--- a/body/empty.go
+++ b/body/empty.go
@@ -1,6 +1,7 @@
 package body
 
 import (
+	"fmt"
 	"io"
 	"io/fs"
 	"sync"
@@ -81,6 +82,10 @@ func (body *emptyBody) ReadAt(p []byte, offset int64) (int, error) {
 		return 0, fs.ErrClosed
 	}
 
+	if offset < 0 {
+		return 0, fmt.Errorf("ReadAt error: offset %d is negative", offset)
+	}
+
 	if len(p) > 0 {
 		return 0, io.EOF
 	}
-- 
2.43.0


From 01ce4507325c28c77fd4d29bc3c5f139503de699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:27 +0000
Subject: [PATCH 04/15] fix: a partial WriteTo of an in-memory body lost the
 rest of the data

---
 body/bytes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/body/bytes.go b/body/bytes.go
index d7b14f8..6b23a1e 100644
--- a/body/bytes.go
+++ b/body/bytes.go
@@ -160,7 +160,10 @@ func (body *bytesBody) WriteTo(w io.Writer) (int64, error) {
 	assert.Assertf(n >= 0, "Write must return %d >= 0", n)
 	assert.Assertf(n <= avail, "Write must return %d <= %d", n, avail)
 	body.offset += int(n)
-	body.eof = true
+	body.eof = (n == avail)
+	if n < avail && err == nil {
+		err = io.ErrShortWrite
+	}
 	return int64(n), err
 }
 
-- 
2.43.0


From 98fea6a4f8e347517abd68dad59b79681a315968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:28 +0000
Subject: [PATCH 05/15] fix: BytesRemaining of a seekable body raced with Read
 and could be negative

---
 body/seeker.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/body/seeker.go b/body/seeker.go
index 34ac623..79bea2e 100644
--- a/body/seeker.go
+++ b/body/seeker.go
@@ -81,7 +81,12 @@ func (body *seekerBody) BytesRemaining() int64 {
 		return 0
 	}
 
-	return (body.common.length - body.offset)
+	length := body.common.BytesRemaining()
+	offset := body.offset
+	if offset >= length {
+		return 0
+	}
+	return (length - offset)
 }
 
 func (body *seekerBody) Read(p []byte) (int, error) {
-- 
2.43.0


From b5dbf1acada1e397cbaf52e130fd36cd63bab884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:28 +0000
Subject: [PATCH 06/15] fix: a read failure truncated the source for every copy
 of a body

---
 body/readerat.go | 2 +-
 body/seeker.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/body/readerat.go b/body/readerat.go
index 41e392a..ca87a3d 100644
--- a/body/readerat.go
+++ b/body/readerat.go
@@ -132,7 +132,7 @@ func (body *readerAtBody) Read(p []byte) (int, error) {
 		body.err = err
 
 		length = offset
-		if length < common.length {
+		if err == io.EOF && length < common.length {
 			common.length = length
 		}
 	}
diff --git a/body/seeker.go b/body/seeker.go
index 79bea2e..0d4325e 100644
--- a/body/seeker.go
+++ b/body/seeker.go
@@ -137,7 +137,7 @@ func (body *seekerBody) Read(p []byte) (int, error) {
 		body.err = err
 
 		length = offset
-		if length < common.length {
+		if err == io.EOF && length < common.length {
 			common.length = length
 		}
 	}
-- 
2.43.0


From def75b8df4f5ef30e45ca93a92d320a4e56b481c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:29 +0000
Subject: [PATCH 07/15] fix: a short read near the end of a seekable body was
 reported as EOF

---
 body/seeker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/body/seeker.go b/body/seeker.go
index 0d4325e..1555434 100644
--- a/body/seeker.go
+++ b/body/seeker.go
@@ -126,7 +126,7 @@ func (body *seekerBody) Read(p []byte) (int, error) {
 	if avail > 0 {
 		n, err = common.readAt(p[0:x], offset)
 	}
-	if eof && err == nil {
+	if eof && err == nil && int64(n) == x {
 		err = io.EOF
 	}
 
-- 
2.43.0


From 6ef37854c4307fd9830875933623b0d7c9fd7693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:30 +0000
Subject: [PATCH 08/15] fix: ReadAt of a seekable body returned short reads
 without an error

---
 body/seeker.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/body/seeker.go b/body/seeker.go
index 1555434..10f63a4 100644
--- a/body/seeker.go
+++ b/body/seeker.go
@@ -65,6 +65,24 @@ func (common *seekerCommon) readAt(p []byte, offset int64) (int, error) {
 	return n, err
 }
 
+func (common *seekerCommon) readFullAt(p []byte, offset int64) (int, error) {
+	n, err := common.readAt(p, offset)
+	empty := 0
+	for err == nil && n < len(p) {
+		var m int
+		m, err = common.s.Read(p[n:])
+		assert.Assertf(m >= 0, "Read must return %d >= 0", m)
+		assert.Assertf(m <= len(p)-n, "Read must return %d <= %d", m, len(p)-n)
+		n += m
+		if m > 0 {
+			empty = 0
+		} else if empty++; err == nil && empty >= 100 {
+			err = io.ErrNoProgress
+		}
+	}
+	return n, err
+}
+
 type seekerBody struct {
 	mu     sync.Mutex
 	common *seekerCommon
@@ -232,7 +250,7 @@ func (body *seekerBody) ReadAt(p []byte, offset int64) (int, error) {
 		err error
 	)
 	if avail > 0 {
-		n, err = common.readAt(p[0:x], offset)
+		n, err = common.readFullAt(p[0:x], offset)
 	}
 	if eof && err == nil {
 		err = io.EOF
-- 
2.43.0


From dcdf25654935b80df94b24fd8700335360594f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:30 +0000
Subject: [PATCH 09/15] fix: Serve leaked the body when a push or the response
 writer failed

---
 response/response.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/response/response.go b/response/response.go
index 9edc07f..2d0e07f 100644
--- a/response/response.go
+++ b/response/response.go
@@ -74,7 +74,14 @@ func (resp *Response) Copy() (*Response, error) {
 }
 
 // Serve serves the Response via the given ResponseWriter, consuming its Body.
-func (resp *Response) Serve(w http.ResponseWriter) error {
+func (resp *Response) Serve(w http.ResponseWriter) (err error) {
+	defer func() {
+		err2 := resp.body.Close()
+		if err == nil {
+			err = err2
+		}
+	}()
+
 	if x, ok := w.(http.Pusher); ok {
 		vlist := resp.hdrs[headerPush]
 		for _, url := range vlist {
@@ -94,12 +101,6 @@ func (resp *Response) Serve(w http.ResponseWriter) error {
 
 	w.WriteHeader(resp.code)
 
-	_, err := io.Copy(w, resp.body)
-
-	err2 := resp.body.Close()
-	if err == nil {
-		err = err2
-	}
-
+	_, err = io.Copy(w, resp.body)
 	return err
 }
-- 
2.43.0


From ed492fe0bf005f7cc4d7a9d865c23c5428ed56ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:31 +0000
Subject: [PATCH 10/15] fix: Serve exposed the response's headers to the
 response writer

---
 response/response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/response/response.go b/response/response.go
index 2d0e07f..fdf5d7e 100644
--- a/response/response.go
+++ b/response/response.go
@@ -95,7 +95,7 @@ func (resp *Response) Serve(w http.ResponseWriter) (err error) {
 	h := w.Header()
 	for k, vlist := range resp.hdrs {
 		if k != headerPush {
-			h[k] = vlist
+			h[k] = copyStrings(vlist)
 		}
 	}
 
-- 
2.43.0


From 889d0eb2532205adeb227820a7da7d5d68f4c6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:32 +0000
Subject: [PATCH 11/15] fix: SawError missed errors of bulk copies

---
 response/writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/response/writer.go b/response/writer.go
index a4241e4..3570701 100644
--- a/response/writer.go
+++ b/response/writer.go
@@ -148,6 +148,9 @@ func (w *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	n, err := w.next.(io.ReaderFrom).ReadFrom(r)
 	assert.Assertf(n >= 0, "%d >= 0", n)
 	w.bytes += n
+	if err != nil {
+		w.sawError = true
+	}
 	return n, err
 }
 
-- 
2.43.0


From 75cd4e32097f759248d38d61ae3f3f1995ba746a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:32 +0000
Subject: [PATCH 12/15] fix: body bytes of 304 responses were passed to the
 underlying writer

---
 response/writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/response/writer.go b/response/writer.go
index 3570701..e39f65a 100644
--- a/response/writer.go
+++ b/response/writer.go
@@ -80,7 +80,7 @@ func (w *basicWriter) WriteHeader(status int) {
 func (w *basicWriter) Write(p []byte) (int, error) {
 	w.MaybeWriteHeader(http.StatusOK)
 
-	if w.isHEAD || w.status == http.StatusNoContent {
+	if w.isHEAD || w.status == http.StatusNoContent || w.status == http.StatusNotModified {
 		return len(p), nil
 	}
 
@@ -141,7 +141,7 @@ func (w *fancyWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
 func (w *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	w.MaybeWriteHeader(http.StatusOK)
 
-	if w.isHEAD || w.status == http.StatusNoContent {
+	if w.isHEAD || w.status == http.StatusNoContent || w.status == http.StatusNotModified {
 		return io.Copy(io.Discard, r)
 	}
 
-- 
2.43.0


From 50b809f90f523e64a06c6c8c8c7f69bab4ef631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:33 +0000
Subject: [PATCH 13/15] fix: an informational status was taken for the final
 one

---
 response/writer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/response/writer.go b/response/writer.go
index e39f65a..7b8154b 100644
--- a/response/writer.go
+++ b/response/writer.go
@@ -53,7 +53,9 @@ func (w *basicWriter) Header() http.Header {
 }
 
 func (w *basicWriter) writeHeaderImpl(status int) {
-	w.status = status
+	if status >= 200 || status == http.StatusSwitchingProtocols {
+		w.status = status
+	}
 	w.next.WriteHeader(status)
 }
 
-- 
2.43.0


From 0decf55370371fc7a8c7ef5f271cad8a011cfb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:33 +0000
Subject: [PATCH 14/15] fix: failures before any status were counted under code
 0

---
 handler/adaptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handler/adaptor.go b/handler/adaptor.go
index cd3ae56..005c35e 100644
--- a/handler/adaptor.go
+++ b/handler/adaptor.go
@@ -79,6 +79,7 @@ func (a Adaptor) ServeHTTP(w http.ResponseWriter, req *http.Request) {
 
 	defer func() {
 		panicValue := recover()
+		ww.MaybeWriteHeader(http.StatusInternalServerError)
 		code := strconv.Itoa(ww.Status())
 		elapsedDuration := time.Since(startTime)
 		elapsed := float64(elapsedDuration) / float64(time.Second)
@@ -86,7 +87,6 @@ func (a Adaptor) ServeHTTP(w http.ResponseWriter, req *http.Request) {
 		sendBytes := float64(ww.BytesWritten())
 		labels := prometheus.Labels{"code": code}
 
-		ww.MaybeWriteHeader(http.StatusInternalServerError)
 		if panicValue != nil {
 			PromPanicsTotal.Inc()
 		}
-- 
2.43.0


From 6b864e72d4203e298afea741c4b79090a7c44723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:05 +0000
Subject: [PATCH 15/15] fix: a Seek beyond the largest offset was refused as
 negative

---
 body/body.go     | 10 ++++++++++
 body/bytes.go    |  4 ++--
 body/readerat.go |  4 ++--
 body/seeker.go   |  4 ++--
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/body/body.go b/body/body.go
index 141725f..24d001a 100644
--- a/body/body.go
+++ b/body/body.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
+	"math"
 
 	"github.com/chronos-tachyon/assert"
 	"github.com/chronos-tachyon/bufferpool"
@@ -353,3 +354,12 @@ func FromReaderAndLength(r io.Reader, length int64) (Body, error) {
 	common.ref(body)
 	return body, nil
 }
+
+// addOffsets adds a relative offset to a non-negative base offset.  A sum which
+// is too large for an int64 lies beyond the end of any Body, so it saturates.
+func addOffsets(base, offset int64) int64 {
+	if offset > math.MaxInt64-base {
+		return math.MaxInt64
+	}
+	return base + offset
+}
diff --git a/body/bytes.go b/body/bytes.go
index 6b23a1e..3467a2f 100644
--- a/body/bytes.go
+++ b/body/bytes.go
@@ -89,9 +89,9 @@ func (body *bytesBody) Seek(offset int64, whence int) (int64, error) {
 			return -1, NegativeStartOffsetSeekError{offset}
 		}
 	case io.SeekCurrent:
-		offset += int64(body.offset)
+		offset = addOffsets(int64(body.offset), offset)
 	case io.SeekEnd:
-		offset += bodyLen
+		offset = addOffsets(bodyLen, offset)
 	default:
 		return -1, UnknownWhenceSeekError{whence}
 	}
diff --git a/body/readerat.go b/body/readerat.go
index ca87a3d..1cd02b4 100644
--- a/body/readerat.go
+++ b/body/readerat.go
@@ -173,9 +173,9 @@ func (body *readerAtBody) Seek(offset int64, whence int) (int64, error) {
 			return -1, NegativeStartOffsetSeekError{offset}
 		}
 	case io.SeekCurrent:
-		offset += body.offset
+		offset = addOffsets(body.offset, offset)
 	case io.SeekEnd:
-		offset += length
+		offset = addOffsets(length, offset)
 	default:
 		return -1, UnknownWhenceSeekError{whence}
 	}
diff --git a/body/seeker.go b/body/seeker.go
index 10f63a4..87e5273 100644
--- a/body/seeker.go
+++ b/body/seeker.go
@@ -196,9 +196,9 @@ func (body *seekerBody) Seek(offset int64, whence int) (int64, error) {
 			return -1, NegativeStartOffsetSeekError{offset}
 		}
 	case io.SeekCurrent:
-		offset += body.offset
+		offset = addOffsets(body.offset, offset)
 	case io.SeekEnd:
-		offset += length
+		offset = addOffsets(length, offset)
 	default:
 		return -1, UnknownWhenceSeekError{whence}
 	}
-- 
2.43.0

