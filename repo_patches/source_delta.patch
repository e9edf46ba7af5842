From 296e29e2ea85abe8cc0b4ea6ec8619ecd772572e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:35 +0000
Subject: [PATCH 01/13] fix: FromJSON returned an empty body for every value

---
 body/body.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/body/body.go b/body/body.go
index 1c84c41..141725f 100644
--- a/body/body.go
+++ b/body/body.go
@@ -202,7 +202,7 @@ func fromJSONImpl(v interface{}, isPretty bool) Body {
 			}
 		}
 	} else {
-		copy(dst, src)
+		dst = append(dst, src...)
 	}
 
 	return FromBytes(dst)
-- 
2.43.0


From 444e46e380f961848b270e394529ed89012a30d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:35 +0000
Subject: [PATCH 02/13] fix: writing out an empty body must succeed, not fail
 with EOF

---
 body/empty.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/body/empty.go b/body/empty.go
index 94e752b..822e88e 100644
--- a/body/empty.go
+++ b/body/empty.go
@@ -96,7 +96,7 @@ func (body *emptyBody) WriteTo(w io.Writer) (int64, error) {
 		return 0, fs.ErrClosed
 	}
 
-	return 0, io.EOF
+	return 0, nil
 }
 
 func (body *emptyBody) Copy() (Body, error) {
-- 
2.43.0


From faa1cc88f80043527e26d8bee4d9b42954f2d68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:35 +0000
Subject: [PATCH 03/13] fix: a partial WriteTo must not put the body at
 end-of-file

---
 body/bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/body/bytes.go b/body/bytes.go
index d7b14f8..fe1f681 100644
--- a/body/bytes.go
+++ b/body/bytes.go
@@ -160,7 +160,7 @@ func (body *bytesBody) WriteTo(w io.Writer) (int64, error) {
 	assert.Assertf(n >= 0, "Write must return %d >= 0", n)
 	assert.Assertf(n <= avail, "Write must return %d <= %d", n, avail)
 	body.offset += int(n)
-	body.eof = true
+	body.eof = (n == avail)
 	return int64(n), err
 }
 
-- 
2.43.0


From c8b3e2d6018d360d1ee18547e9dfd6f35f422310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:35 +0000
Subject: [PATCH 04/13] fix: short reads of a seekable reader were taken for
 end-of-file

---
 body/seeker.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/body/seeker.go b/body/seeker.go
index 34ac623..37522b7 100644
--- a/body/seeker.go
+++ b/body/seeker.go
@@ -62,6 +62,13 @@ func (common *seekerCommon) readAt(p []byte, offset int64) (int, error) {
 	n, err := common.s.Read(p)
 	assert.Assertf(n >= 0, "Read must return %d >= 0", n)
 	assert.Assertf(n <= x, "Read must return %d <= %d", n, x)
+	for err == nil && n < x {
+		var m int
+		m, err = common.s.Read(p[n:])
+		assert.Assertf(m >= 0, "Read must return %d >= 0", m)
+		assert.Assertf(m <= x-n, "Read must return %d <= %d", m, x-n)
+		n += m
+	}
 	return n, err
 }
 
-- 
2.43.0


From aea56acb04ffcf05a2fbaaff19f5d02a3782824f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:35 +0000
Subject: [PATCH 05/13] fix: a read error must not shorten the other copies of
 a body

---
 body/readerat.go | 2 +-
 body/seeker.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/body/readerat.go b/body/readerat.go
index 41e392a..ca87a3d 100644
--- a/body/readerat.go
+++ b/body/readerat.go
@@ -132,7 +132,7 @@ func (body *readerAtBody) Read(p []byte) (int, error) {
 		body.err = err
 
 		length = offset
-		if length < common.length {
+		if err == io.EOF && length < common.length {
 			common.length = length
 		}
 	}
diff --git a/body/seeker.go b/body/seeker.go
index 37522b7..c9606b2 100644
--- a/body/seeker.go
+++ b/body/seeker.go
@@ -139,7 +139,7 @@ func (body *seekerBody) Read(p []byte) (int, error) {
 		body.err = err
 
 		length = offset
-		if length < common.length {
+		if err == io.EOF && length < common.length {
 			common.length = length
 		}
 	}
-- 
2.43.0


From 46d241b3a5f4d25bd2df628ed56aaa13018303e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:35 +0000
Subject: [PATCH 06/13] fix: BytesRemaining of a seekable body raced with reads
 and could be negative

---
 body/seeker.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/body/seeker.go b/body/seeker.go
index c9606b2..9ab3eb2 100644
--- a/body/seeker.go
+++ b/body/seeker.go
@@ -88,7 +88,12 @@ func (body *seekerBody) BytesRemaining() int64 {
 		return 0
 	}
 
-	return (body.common.length - body.offset)
+	length := body.common.BytesRemaining()
+	offset := body.offset
+	if offset >= length {
+		return 0
+	}
+	return (length - offset)
 }
 
 func (body *seekerBody) Read(p []byte) (int, error) {
-- 
2.43.0


From 31e240736d7731630dd4ea44627ed13d04a736fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:35 +0000
Subject: [PATCH 07/13] fix: ReadAt of an empty body accepted negative offsets

---
 body/empty.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/body/empty.go b/body/empty.go
index 822e88e..e8eb96c 100644
--- a/body/empty.go
+++ b/body/empty.go
@@ -1,6 +1,7 @@
 package body
 
 import (
+	"fmt"
 	"io"
 	"io/fs"
 	"sync"
@@ -81,6 +82,10 @@ func (body *emptyBody) ReadAt(p []byte, offset int64) (int, error) {
 		return 0, fs.ErrClosed
 	}
 
+	if offset < 0 {
+		return 0, fmt.Errorf("ReadAt error: offset %d is negative", offset)
+	}
+
 	if len(p) > 0 {
 		return 0, io.EOF
 	}
-- 
2.43.0


From a67b401ea1719a496ef1ff3e78685920386fadf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:15 +0000
Subject: [PATCH 08/13] fix: the size of a pipe or device is not the length of
 a body

---
 body/body.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/body/body.go b/body/body.go
index 141725f..1259eeb 100644
--- a/body/body.go
+++ b/body/body.go
@@ -305,8 +305,10 @@ func FromReaderAndLength(r io.Reader, length int64) (Body, error) {
 			return nil, fmt.Errorf("failed to determine length of body via Stat: %w", err)
 		}
 
-		length = fi.Size()
-		assert.Assertf(length >= 0, "FileInfo.Size must return %d >= 0", length)
+		if fi.Mode().IsRegular() {
+			length = fi.Size()
+			assert.Assertf(length >= 0, "FileInfo.Size must return %d >= 0", length)
+		}
 	}
 
 	if sOK && length < 0 {
-- 
2.43.0


From 2120ad8365bb349a5e016dd3ad52f4cfaa8b837b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:20 +0000
Subject: [PATCH 09/13] fix: serving a response shared its header values with
 the writer

---
 response/response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/response/response.go b/response/response.go
index 9edc07f..c433957 100644
--- a/response/response.go
+++ b/response/response.go
@@ -88,7 +88,7 @@ func (resp *Response) Serve(w http.ResponseWriter) error {
 	h := w.Header()
 	for k, vlist := range resp.hdrs {
 		if k != headerPush {
-			h[k] = vlist
+			h[k] = copyStrings(vlist)
 		}
 	}
 
-- 
2.43.0


From e74cabc6db411dc4c6c5da8fb4965cc9fc53f9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:59 +0000
Subject: [PATCH 10/13] fix: the body was not closed when serving a response
 failed early or panicked

---
 response/response.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/response/response.go b/response/response.go
index c433957..5a722d1 100644
--- a/response/response.go
+++ b/response/response.go
@@ -74,7 +74,17 @@ func (resp *Response) Copy() (*Response, error) {
 }
 
 // Serve serves the Response via the given ResponseWriter, consuming its Body.
-func (resp *Response) Serve(w http.ResponseWriter) error {
+func (resp *Response) Serve(w http.ResponseWriter) (err error) {
+	// Close the body no matter how serving ends, panics included.
+	if resp.body != nil {
+		defer func() {
+			err2 := resp.body.Close()
+			if err == nil {
+				err = err2
+			}
+		}()
+	}
+
 	if x, ok := w.(http.Pusher); ok {
 		vlist := resp.hdrs[headerPush]
 		for _, url := range vlist {
@@ -94,12 +104,6 @@ func (resp *Response) Serve(w http.ResponseWriter) error {
 
 	w.WriteHeader(resp.code)
 
-	_, err := io.Copy(w, resp.body)
-
-	err2 := resp.body.Close()
-	if err == nil {
-		err = err2
-	}
-
+	_, err = io.Copy(w, resp.body)
 	return err
 }
-- 
2.43.0


From 133026f6e22e068f77633ab543624c814c87e048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:25 +0000
Subject: [PATCH 11/13] fix: a 304 response must not have a body

---
 response/writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/response/writer.go b/response/writer.go
index a4241e4..33177b0 100644
--- a/response/writer.go
+++ b/response/writer.go
@@ -80,7 +80,7 @@ func (w *basicWriter) WriteHeader(status int) {
 func (w *basicWriter) Write(p []byte) (int, error) {
 	w.MaybeWriteHeader(http.StatusOK)
 
-	if w.isHEAD || w.status == http.StatusNoContent {
+	if w.isHEAD || w.status == http.StatusNoContent || w.status == http.StatusNotModified {
 		return len(p), nil
 	}
 
@@ -141,7 +141,7 @@ func (w *fancyWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
 func (w *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	w.MaybeWriteHeader(http.StatusOK)
 
-	if w.isHEAD || w.status == http.StatusNoContent {
+	if w.isHEAD || w.status == http.StatusNoContent || w.status == http.StatusNotModified {
 		return io.Copy(io.Discard, r)
 	}
 
-- 
2.43.0


From 1ef345618bbc3fd1accbe52b3938e662a1db5b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:26 +0000
Subject: [PATCH 12/13] fix: a failed ReadFrom was not remembered as an error

---
 response/writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/response/writer.go b/response/writer.go
index 33177b0..e39f65a 100644
--- a/response/writer.go
+++ b/response/writer.go
@@ -148,6 +148,9 @@ func (w *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	n, err := w.next.(io.ReaderFrom).ReadFrom(r)
 	assert.Assertf(n >= 0, "%d >= 0", n)
 	w.bytes += n
+	if err != nil {
+		w.sawError = true
+	}
 	return n, err
 }
 
-- 
2.43.0


From ff75c7c88e6d9477ff0a0e590567e089ad967f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:33 +0000
Subject: [PATCH 13/13] fix: requests that failed before a header were counted
 under status 0

---
 handler/adaptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handler/adaptor.go b/handler/adaptor.go
index cd3ae56..005c35e 100644
--- a/handler/adaptor.go
+++ b/handler/adaptor.go
@@ -79,6 +79,7 @@ func (a Adaptor) ServeHTTP(w http.ResponseWriter, req *http.Request) {
 
 	defer func() {
 		panicValue := recover()
+		ww.MaybeWriteHeader(http.StatusInternalServerError)
 		code := strconv.Itoa(ww.Status())
 		elapsedDuration := time.Since(startTime)
 		elapsed := float64(elapsedDuration) / float64(time.Second)
@@ -86,7 +87,6 @@ func (a Adaptor) ServeHTTP(w http.ResponseWriter, req *http.Request) {
 		sendBytes := float64(ww.BytesWritten())
 		labels := prometheus.Labels{"code": code}
 
-		ww.MaybeWriteHeader(http.StatusInternalServerError)
 		if panicValue != nil {
 			PromPanicsTotal.Inc()
 		}
-- 
2.43.0

