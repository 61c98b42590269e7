From 394e4a8f5065309bb68da6ef18291c2da7940557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:05 +0000
Subject: [PATCH 01/30] fix: MemoryStore keeps its own copy of collected
 annotations

The caller's variadic slice was stored and later appended to in place, so
that reusing the slice (or passing it for two spans) corrupted annotations.
---
 store.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 53dcc6f..6ca8765 100644
--- a/store.go
+++ b/store.go
@@ -122,7 +122,9 @@ func (ms *MemoryStore) collectNoLock(id SpanID, as ...Annotation) error {
 	// Create or update span.
 	s, present := ms.span[id.Trace][id.Span]
 	if !present {
-		s = &Trace{Span: Span{ID: id, Annotations: as}}
+		// Copy the annotations: the slice belongs to the caller, who may
+		// reuse it (and we append to ours).
+		s = &Trace{Span: Span{ID: id, Annotations: append(Annotations(nil), as...)}}
 		ms.span[id.Trace][id.Span] = s
 	} else {
 		if ms.log {
-- 
2.43.0


From 7e148ea77ea88d5259020fbff723e536e50862b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:49 +0000
Subject: [PATCH 02/30] fix: MemoryStore never attaches a span beneath itself

A span that was its own parent, or a cycle of parents, produced a cyclic or
detached structure: endless recursion when reading or saving the trace, or
spans that were lost. Such spans now stay directly under the root.
---
 store.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/store.go b/store.go
index 6ca8765..450d0ae 100644
--- a/store.go
+++ b/store.go
@@ -204,14 +204,15 @@ func (ms *MemoryStore) collectNoLock(id SpanID, as ...Annotation) error {
 // root.
 func (ms *MemoryStore) insert(root, t *Trace) {
 	p, present := ms.span[t.ID.Trace][t.ID.Parent]
-	if present {
+	if present && !ms.inCycle(t) {
 		if ms.log {
 			log.Printf("Add %v as a child of parent %v", t.Span.ID, p.Span.ID)
 		}
 		p.Sub = append(p.Sub, t)
 	} else {
 		// Add as temporary child of the root for now. When the
-		// real parent is added, we'll fix it up later.
+		// real parent is added, we'll fix it up later. (If t is its
+		// own ancestor, it stays there.)
 		if ms.log {
 			log.Printf("Add %v as a temporary child of root %v", t.Span.ID, root.Span.ID)
 		}
@@ -227,7 +228,7 @@ func (ms *MemoryStore) reattachChildren(dst, src *Trace) {
 	}
 	var sub2 []*Trace
 	for _, c := range src.Sub {
-		if c.Span.ID.Parent == dst.Span.ID.Span {
+		if c.Span.ID.Parent == dst.Span.ID.Span && !ms.inCycle(c) {
 			if ms.log {
 				log.Printf("Move %v from src %v to dst %v", c.Span.ID, src.Span.ID, dst.Span.ID)
 			}
@@ -239,6 +240,21 @@ func (ms *MemoryStore) reattachChildren(dst, src *Trace) {
 	src.Sub = sub2
 }
 
+// inCycle tells whether following the parents of t leads back to t. Such a
+// span must not be attached to its parent, or else the trace would not be a
+// tree.
+func (ms *MemoryStore) inCycle(t *Trace) bool {
+	spans := ms.span[t.ID.Trace]
+	p, present := spans[t.ID.Parent]
+	for i := 0; present && i < len(spans); i++ {
+		if p == t {
+			return true
+		}
+		p, present = spans[p.ID.Parent]
+	}
+	return false
+}
+
 // Trace implements the Store interface by returning the Trace (a tree of
 // spans) for the given trace span ID or, if no such trace exists, by returning
 // ErrTraceNotFound.
-- 
2.43.0


From 8e0bfa60bde55178832d46e8a78c2d912bafe4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:17 +0000
Subject: [PATCH 03/30] fix: MemoryStore loaded by ReadFrom can be collected
 into

gob turns the pointers shared by the two indexes into copies, so that spans
and annotations collected after a load never showed up; and loading an empty
store left nil maps, so that the next Collect panicked. Rebuild the span
index from the loaded trees.
---
 store.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/store.go b/store.go
index 450d0ae..2521d14 100644
--- a/store.go
+++ b/store.go
@@ -360,11 +360,27 @@ func (ms *MemoryStore) ReadFrom(r io.Reader) (int64, error) {
 	if err := gob.NewDecoder(r).Decode(&data); err != nil {
 		return 0, err
 	}
-	ms.trace = data.Trace
-	ms.span = data.Span
+	ms.trace = make(map[ID]*Trace, len(data.Trace))
+	ms.span = make(map[ID]map[ID]*Trace, len(data.Trace))
+	for id, t := range data.Trace {
+		ms.trace[id] = t
+		// Index the spans of the tree itself; those in data.Span are copies
+		// (gob doesn't preserve shared pointers).
+		ms.span[id] = map[ID]*Trace{}
+		indexSpans(t, ms.span[id])
+	}
 	return int64(len(ms.trace)), nil
 }
 
+// indexSpans adds t and its descendants to the given map of span ID -> trace
+// (sub)tree.
+func indexSpans(t *Trace, spans map[ID]*Trace) {
+	spans[t.ID.Span] = t
+	for _, sub := range t.Sub {
+		indexSpans(sub, spans)
+	}
+}
+
 // PersistentStore is a Store that can persist its data and read it
 // back in.
 type PersistentStore interface {
-- 
2.43.0


From 97fa7b757b60da7a0aa468ab69c910cd4f366f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:33 +0000
Subject: [PATCH 04/30] fix: MemoryStore returns copies of its traces

Trace and Traces returned the live tree, so that readers raced with later
collections, saw it change while (and after) reading it, and could corrupt
the store by modifying it.
---
 store.go |  2 +-
 trace.go | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 2521d14..bf6fd26 100644
--- a/store.go
+++ b/store.go
@@ -270,7 +270,7 @@ func (ms *MemoryStore) traceNoLock(id ID) (*Trace, error) {
 	if !present {
 		return nil, ErrTraceNotFound
 	}
-	return t, nil
+	return t.clone(), nil
 }
 
 // Traces implements the Queryer interface.
diff --git a/trace.go b/trace.go
index e53533f..02d08f3 100644
--- a/trace.go
+++ b/trace.go
@@ -25,6 +25,20 @@ func (t *Trace) String() string {
 	return string(b)
 }
 
+// clone returns a copy of t that shares no span, annotation list or list of
+// children with it.
+func (t *Trace) clone() *Trace {
+	c := &Trace{Span: t.Span}
+	c.Annotations = append(Annotations(nil), t.Annotations...)
+	if t.Sub != nil {
+		c.Sub = make([]*Trace, len(t.Sub))
+		for i, sub := range t.Sub {
+			c.Sub[i] = sub.clone()
+		}
+	}
+	return c
+}
+
 // FindSpan recursively searches for a span whose Span ID is spanID in
 // t and its descendants. If no such span is found, nil is returned.
 func (t *Trace) FindSpan(spanID ID) *Trace {
-- 
2.43.0


From a7321ae2c7dcfb96dd6811e7ad1c81b73143ce14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:35 +0000
Subject: [PATCH 05/30] fix: MemoryStore.Traces honours TracesOpts.TraceIDs

It returned all traces whatever the IDs asked for, so that for instance the
traces page showed everything when asked for some traces.
---
 store.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/store.go b/store.go
index bf6fd26..96c05a7 100644
--- a/store.go
+++ b/store.go
@@ -278,8 +278,19 @@ func (ms *MemoryStore) Traces(opts TracesOpts) ([]*Trace, error) {
 	ms.Lock()
 	defer ms.Unlock()
 
+	var only map[ID]struct{} // the traces to return, if not all
+	if len(opts.TraceIDs) > 0 {
+		only = make(map[ID]struct{}, len(opts.TraceIDs))
+		for _, id := range opts.TraceIDs {
+			only[id] = struct{}{}
+		}
+	}
+
 	var ts []*Trace
 	for id := range ms.trace {
+		if _, ok := only[id]; only != nil && !ok {
+			continue
+		}
 		t, err := ms.traceNoLock(id)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 354007b91afc64004fcf33dcbf44ca5cb92cdf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:16 +0000
Subject: [PATCH 06/30] fix: LimitStore evicts traces whatever their ID

A trace with ID 0 looked like a free slot, so it was never evicted and the
store grew beyond Max. Also, a trace whose deletion failed was no longer
taken for held.
---
 store.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/store.go b/store.go
index 96c05a7..0840616 100644
--- a/store.go
+++ b/store.go
@@ -540,14 +540,14 @@ func (ls *LimitStore) Collect(id SpanID, anns ...Annotation) error {
 		return ls.DeleteStore.Collect(id, anns...)
 	}
 
-	if nextInsert := ls.ring[ls.nextInsertIdx]; nextInsert != 0 {
-		// Store is at capacity (we know this because the next insert
-		// slot already contains trace); delete oldest.
+	if len(ls.traces) == ls.Max {
+		// Store is at capacity (so the next insert slot contains the
+		// oldest trace, whose ID may be any number); delete oldest.
 		old := ID(ls.ring[ls.nextInsertIdx])
-		delete(ls.traces, old)
 		if err := ls.DeleteStore.Delete(old); err != nil {
 			return err
 		}
+		delete(ls.traces, old)
 	}
 	ls.traces[id.Trace] = struct{}{}
 	ls.ring[ls.nextInsertIdx] = int64(id.Trace)
-- 
2.43.0


From ced9f87533fabed7aa463a99b61a4ca97cce058f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:47 +0000
Subject: [PATCH 07/30] fix: RecentStore evicts traces collected again while
 being evicted

A span stored after its trace was evicted and forgotten, by the same or a
concurrent call, left a trace that nothing tracked, so it was kept for ever.
---
 store.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 0840616..67da928 100644
--- a/store.go
+++ b/store.go
@@ -455,6 +455,10 @@ type RecentStore struct {
 // Collect calls the underlying store's Collect and records the time
 // that this trace was first seen.
 func (rs *RecentStore) Collect(id SpanID, anns ...Annotation) error {
+	// Collect first: a span must not be stored after its trace was evicted
+	// and forgotten, or else the trace would never be evicted again.
+	err := rs.DeleteStore.Collect(id, anns...)
+
 	rs.mu.Lock()
 	if rs.created == nil {
 		rs.created = map[ID]int64{}
@@ -467,7 +471,7 @@ func (rs *RecentStore) Collect(id SpanID, anns ...Annotation) error {
 	}
 	rs.mu.Unlock()
 
-	return rs.DeleteStore.Collect(id, anns...)
+	return err
 }
 
 // evictBefore evicts traces that were created before t. The rs.mu lock
-- 
2.43.0


From d0dc0c43bc2ef376e56f9bf1749710532675ac13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:36 +0000
Subject: [PATCH 08/30] fix: PersistEvery works for a file on any filesystem

It renamed a file in the temporary directory to the target, which fails if
these are on different filesystems, and left that file behind on failures.
---
 store.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 67da928..153eb63 100644
--- a/store.go
+++ b/store.go
@@ -7,6 +7,7 @@ import (
 	"io/ioutil"
 	"log"
 	"os"
+	"path/filepath"
 	"sync"
 	"time"
 )
@@ -405,18 +406,23 @@ func PersistEvery(s PersistentStore, interval time.Duration, file string) error
 	for {
 		time.Sleep(interval)
 
-		f, err := ioutil.TempFile("", "appdash")
+		// The temporary file is in the directory of file, because renaming
+		// it to a directory on another filesystem would fail.
+		f, err := ioutil.TempFile(filepath.Dir(file), "appdash")
 		if err != nil {
 			return err
 		}
 		if err := s.Write(f); err != nil {
 			f.Close()
+			os.Remove(f.Name())
 			return err
 		}
 		if err := f.Close(); err != nil {
+			os.Remove(f.Name())
 			return err
 		}
 		if err := os.Rename(f.Name(), file); err != nil {
+			os.Remove(f.Name())
 			return err
 		}
 	}
-- 
2.43.0


From 2dd0084db1813e9d126d93a8ce7357c9e5424b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:28 +0000
Subject: [PATCH 09/30] fix: ChunkedCollector keeps its own copy of queued
 annotations

It queued the caller's slice and appended to it, so callers that reuse their
slice changed or raced with what was queued.
---
 collector.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collector.go b/collector.go
index 26eb9cd..1c169c5 100644
--- a/collector.go
+++ b/collector.go
@@ -192,7 +192,9 @@ func (cc *ChunkedCollector) Collect(span SpanID, anns ...Annotation) error {
 			cc.pendingBySpanID[span] = append(p, anns...)
 		}
 	} else {
-		cc.pendingBySpanID[span] = anns
+		// Copy the annotations: the slice belongs to the caller, who may
+		// reuse it (and we append to ours).
+		cc.pendingBySpanID[span] = append(Annotations(nil), anns...)
 	}
 
 	if err := cc.lastErr; err != nil {
-- 
2.43.0


From 6700a804cf97d049e1396fa97d4719f7f52fbd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:28 +0000
Subject: [PATCH 10/30] fix: ChunkedCollector.Stop is safe at any time and
 final

It panicked before the first collection and when called again, and a flush
after it still sent data to the underlying collector.
---
 collector.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/collector.go b/collector.go
index 1c169c5..559096d 100644
--- a/collector.go
+++ b/collector.go
@@ -210,6 +210,10 @@ func (cc *ChunkedCollector) Flush() error {
 	start := time.Now()
 
 	cc.mu.Lock()
+	if cc.stopped {
+		cc.mu.Unlock()
+		return errors.New("ChunkedCollector is stopped")
+	}
 	pendingBySpanID := cc.pendingBySpanID
 	queueSizeBytes := cc.queueSizeBytes
 	cc.pendingBySpanID = nil
@@ -270,7 +274,9 @@ func (cc *ChunkedCollector) start() {
 func (cc *ChunkedCollector) Stop() {
 	cc.mu.Lock()
 	defer cc.mu.Unlock()
-	close(cc.stopChan)
+	if cc.started && !cc.stopped {
+		close(cc.stopChan)
+	}
 	cc.stopped = true
 }
 
-- 
2.43.0


From 1a3d1531a2201cda8c20dab658131e34e8cc8c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:06 +0000
Subject: [PATCH 11/30] fix: CollectorServer accepts span IDs without a parent

The parent is optional in the protocol, but a message without it made the
server dereference a nil pointer and crash.
---
 span.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/span.go b/span.go
index 0f960b7..e856c95 100644
--- a/span.go
+++ b/span.go
@@ -73,7 +73,7 @@ func spanIDFromWire(w *wire.CollectPacket_SpanID) SpanID {
 	return SpanID{
 		Trace:  ID(*w.Trace),
 		Span:   ID(*w.Span),
-		Parent: ID(*w.Parent),
+		Parent: ID(w.GetParent()), // optional
 	}
 }
 
-- 
2.43.0


From b2699cedbe931f75fec0c337519aa141a338ecd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:11 +0000
Subject: [PATCH 12/30] fix: trace requests with malformed span ID headers
 under a new root span

The middleware logged that it would continue, then dereferenced the nil
span ID and panicked, so the handler never ran.
---
 httptrace/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httptrace/server.go b/httptrace/server.go
index ce804bf..9c67177 100644
--- a/httptrace/server.go
+++ b/httptrace/server.go
@@ -71,6 +71,8 @@ func Middleware(c appdash.Collector, conf *MiddlewareConfig) func(rw http.Respon
 		spanID, spanFromHeader, err := getSpanID(r.Header)
 		if err != nil {
 			log.Printf("Warning: invalid %s header: %s. (Continuing with request handling.)", spanFromHeader, err)
+			rootSpanID := appdash.NewRootSpanID()
+			spanID, spanFromHeader = &rootSpanID, ""
 		}
 		usingProvidedSpanID := (spanFromHeader == HeaderSpanID)
 
-- 
2.43.0


From 8e24a0991f78a289512354b0ec8deb9472b7afbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:00 +0000
Subject: [PATCH 13/30] fix: httptrace records the HTTP status that was
 actually sent

A superfluous WriteHeader call, or an informational one, replaced the
status in the recorded server event.
---
 httptrace/server.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/httptrace/server.go b/httptrace/server.go
index 9c67177..182d56d 100644
--- a/httptrace/server.go
+++ b/httptrace/server.go
@@ -175,9 +175,12 @@ func (r *responseInfoRecorder) StatusCode() int {
 	return r.statusCode
 }
 
-// WriteHeader sets r.Code.
+// WriteHeader records code if it is the status that is sent: informational
+// responses come before it, and calls after the first one have no effect.
 func (r *responseInfoRecorder) WriteHeader(code int) {
-	r.statusCode = code
+	if r.statusCode == 0 && (code >= 200 || code == http.StatusSwitchingProtocols) {
+		r.statusCode = code
+	}
 	r.ResponseWriter.WriteHeader(code)
 }
 
@@ -196,6 +199,9 @@ func (r *responseInfoRecorder) partialResponse() *http.Response {
 // implements http.Flusher.
 func (r *responseInfoRecorder) Flush() {
 	if f, ok := r.ResponseWriter.(http.Flusher); ok {
+		if r.statusCode == 0 {
+			r.statusCode = http.StatusOK // sent by the flush
+		}
 		f.Flush()
 	}
 }
-- 
2.43.0


From 2198d3fa9c73b8a23bc98ea77deeaffb68c1a8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:28 +0000
Subject: [PATCH 14/30] fix: httptrace counts the body bytes that were actually
 sent

Bytes that the underlying writer refused (no body allowed, or more than
the declared length) were counted in the recorded content length.
---
 httptrace/server.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/httptrace/server.go b/httptrace/server.go
index 182d56d..6f23c84 100644
--- a/httptrace/server.go
+++ b/httptrace/server.go
@@ -159,13 +159,15 @@ type responseInfoRecorder struct {
 	http.ResponseWriter // underlying ResponseWriter to pass-thru to
 }
 
-// Write always succeeds and writes to r.Body, if not nil.
+// Write writes to the underlying http.ResponseWriter and counts the bytes
+// that it accepted.
 func (r *responseInfoRecorder) Write(b []byte) (int, error) {
-	r.ContentLength += int64(len(b))
 	if r.statusCode == 0 {
 		r.statusCode = http.StatusOK
 	}
-	return r.ResponseWriter.Write(b)
+	n, err := r.ResponseWriter.Write(b)
+	r.ContentLength += int64(n)
+	return n, err
 }
 
 func (r *responseInfoRecorder) StatusCode() int {
-- 
2.43.0


From e15d526f49464d328dd3afee339c0aacf401faa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:39 +0000
Subject: [PATCH 15/30] fix: httptrace records all values of header fields and
 leaves them alone

Of header names that differ only in letter case one was recorded, and
appending trailer values could overwrite values of the request that share
an underlying array.
---
 httptrace/client.go | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/httptrace/client.go b/httptrace/client.go
index 0fa6fc7..c1f4ec1 100644
--- a/httptrace/client.go
+++ b/httptrace/client.go
@@ -80,23 +80,19 @@ var (
 
 func redactHeaders(header, trailer http.Header) map[string]string {
 	h := make(http.Header, len(header)+len(trailer))
-	for k, v := range header {
-		if isRedacted(k) {
-			h[k] = redacted
-		} else {
-			h[k] = v
-		}
-	}
-	for k, v := range trailer {
-		if isRedacted(k) {
-			h[k] = redacted
-		} else {
-			h[k] = append(h[k], v...)
+	for _, fields := range []http.Header{header, trailer} {
+		for k, v := range fields {
+			ck := http.CanonicalHeaderKey(k)
+			if isRedacted(k) {
+				h[ck] = redacted
+			} else {
+				h[ck] = append(h[ck], v...)
+			}
 		}
 	}
 	m := make(map[string]string, len(h))
 	for k, v := range h {
-		m[http.CanonicalHeaderKey(k)] = strings.Join(v, ",")
+		m[k] = strings.Join(v, ",")
 	}
 	return m
 }
-- 
2.43.0


From 1330e17d9b0bd2393e68f7594c20e4f56b6a0d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:47 +0000
Subject: [PATCH 16/30] fix: httptrace redacts response trailers set with
 http.TrailerPrefix

A handler that sets the trailer Authorization as the header field
"Trailer:Authorization" had its value recorded.
---
 httptrace/client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httptrace/client.go b/httptrace/client.go
index c1f4ec1..e699856 100644
--- a/httptrace/client.go
+++ b/httptrace/client.go
@@ -98,8 +98,10 @@ func redactHeaders(header, trailer http.Header) map[string]string {
 }
 
 func isRedacted(name string) bool {
+	// Handlers set response trailers as header fields with this prefix.
+	trailer := strings.TrimPrefix(name, http.TrailerPrefix)
 	for _, v := range RedactedHeaders {
-		if strings.EqualFold(name, v) {
+		if strings.EqualFold(name, v) || strings.EqualFold(trailer, v) {
 			return true
 		}
 	}
-- 
2.43.0


From 8ee59588c4d26eacfd8d0288acb565393d5d3651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:30 +0000
Subject: [PATCH 17/30] fix: do not panic on events with nil pointers, and give
 pointers to times and durations their own form

---
 reflect.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/reflect.go b/reflect.go
index fe33dba..5d59002 100644
--- a/reflect.go
+++ b/reflect.go
@@ -11,6 +11,17 @@ import (
 )
 
 func flattenValue(prefix string, v reflect.Value, f func(k, v string)) {
+	if v.Kind() == reflect.Ptr {
+		if v.IsNil() {
+			return
+		}
+		switch v.Interface().(type) {
+		case *time.Time, *time.Duration:
+			// These are Stringers, but have a form of their own.
+			v = v.Elem()
+		}
+	}
+
 	switch o := v.Interface().(type) {
 	case time.Time:
 		f(prefix, o.Format(time.RFC3339Nano))
-- 
2.43.0


From 3e737aff6f2c0e862327e55012911eed9994aa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:33 +0000
Subject: [PATCH 18/30] fix: read float64 event fields with their full
 precision

---
 reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reflect.go b/reflect.go
index 5d59002..08e0c70 100644
--- a/reflect.go
+++ b/reflect.go
@@ -129,7 +129,7 @@ func parseValueToPtr(as reflect.Type, s string) (reflect.Value, error) {
 		}
 		return reflect.ValueOf(&vv), nil
 	case reflect.Float32, reflect.Float64:
-		vv, err := strconv.ParseFloat(s, 32)
+		vv, err := strconv.ParseFloat(s, as.Bits())
 		if err != nil {
 			return reflect.Value{}, err
 		}
-- 
2.43.0


From a887bf22ed743fed914df2aa1f09ee115d707bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:37 +0000
Subject: [PATCH 19/30] fix: record durations without loss of precision

---
 reflect.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/reflect.go b/reflect.go
index 08e0c70..32445fa 100644
--- a/reflect.go
+++ b/reflect.go
@@ -27,8 +27,7 @@ func flattenValue(prefix string, v reflect.Value, f func(k, v string)) {
 		f(prefix, o.Format(time.RFC3339Nano))
 		return
 	case time.Duration:
-		ms := float64(o.Nanoseconds()) / float64(time.Millisecond)
-		f(prefix, strconv.FormatFloat(ms, 'f', -1, 64))
+		f(prefix, formatMilliseconds(o))
 		return
 	case fmt.Stringer:
 		f(prefix, o.String())
@@ -69,6 +68,20 @@ func flattenValue(prefix string, v reflect.Value, f func(k, v string)) {
 	}
 }
 
+// formatMilliseconds formats d as a decimal number of milliseconds, without
+// the loss of precision of a floating-point number.
+func formatMilliseconds(d time.Duration) string {
+	ms, ns := int64(d/time.Millisecond), int64(d%time.Millisecond)
+	if ns == 0 {
+		return strconv.FormatInt(ms, 10)
+	}
+	sign := ""
+	if d < 0 {
+		sign, ms, ns = "-", -ms, -ns
+	}
+	return strings.TrimRight(fmt.Sprintf("%s%d.%06d", sign, ms, ns), "0")
+}
+
 func mapToKVs(m map[string]string) *[][2]string {
 	var kvs [][2]string
 	for k, v := range m {
@@ -110,12 +123,10 @@ func parseValueToPtr(as reflect.Type, s string) (reflect.Value, error) {
 		}
 		return reflect.ValueOf(&t), nil
 	case [2]string{"time", "Duration"}:
-		// Multiply by 1000 because flattenValue divides by 1000.
-		usec, err := strconv.ParseFloat(s, 64)
+		d, err := time.ParseDuration(s + "ms")
 		if err != nil {
 			return reflect.Value{}, err
 		}
-		d := time.Duration(usec * float64(time.Millisecond))
 		return reflect.ValueOf(&d), nil
 	}
 
-- 
2.43.0


From 6d14df8e1d7c9f0a1c4a4d324efe892de8f444cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:40 +0000
Subject: [PATCH 20/30] fix: find each event field's own annotations whatever
 else is on the span

Unmarshalling walked the sorted annotations with a cursor that dropped every
annotation before the one it was looking for: a field without annotations (an
empty slice or map, a nil pointer, or one sorting after its neighbours'
nested keys) took those of all following fields with it, and a field could
take the value of another whose name it is a prefix of. Empty slices came
back with one element, stray keys below a slice or array ended the
unmarshalling or panicked, and named scalar types panicked.
---
 reflect.go | 120 ++++++++++++++++++++++++-----------------------------
 1 file changed, 54 insertions(+), 66 deletions(-)

diff --git a/reflect.go b/reflect.go
index 32445fa..4214a14 100644
--- a/reflect.go
+++ b/reflect.go
@@ -97,11 +97,23 @@ func (v kvsByKey) Len() int           { return len(v) }
 func (v kvsByKey) Less(i, j int) bool { return v[i][0] < v[j][0] }
 func (v kvsByKey) Swap(i, j int)      { v[i], v[j] = v[j], v[i] }
 
-type structFieldsByName []reflect.StructField
+// lookup returns the value of the given key in the sorted kvs.
+func lookup(kvs [][2]string, key string) (string, bool) {
+	i := sort.Search(len(kvs), func(i int) bool { return kvs[i][0] >= key })
+	if i < len(kvs) && kvs[i][0] == key {
+		return kvs[i][1], true
+	}
+	return "", false
+}
 
-func (v structFieldsByName) Len() int           { return len(v) }
-func (v structFieldsByName) Less(i, j int) bool { return fieldName(v[i]) < fieldName(v[j]) }
-func (v structFieldsByName) Swap(i, j int)      { v[i], v[j] = v[j], v[i] }
+// nested returns those of the sorted kvs whose keys are nested in prefix.
+func nested(kvs [][2]string, prefix string) [][2]string {
+	prefix = nest(prefix, "")
+	i := sort.Search(len(kvs), func(i int) bool { return kvs[i][0] >= prefix })
+	kvs = kvs[i:]
+	n := sort.Search(len(kvs), func(i int) bool { return !strings.HasPrefix(kvs[i][0], prefix) })
+	return kvs[:n]
+}
 
 func parseValue(as reflect.Type, s string) (reflect.Value, error) {
 	vp, err := parseValueToPtr(as, s)
@@ -196,20 +208,14 @@ func parseValueToPtr(as reflect.Type, s string) (reflect.Value, error) {
 	case reflect.String:
 		return reflect.ValueOf(&s), nil
 	}
-	return reflect.Value{}, nil
+	return reflect.Value{}, fmt.Errorf("event: can't parse a value of type %s", as)
 }
 
 func unflattenValue(prefix string, v reflect.Value, t reflect.Type, kv *[][2]string) error {
 	if !sort.IsSorted(kvsByKey(*kv)) {
 		panic("unflattenValue: kv must be sorted (using kvsByKey)")
 	}
-	if len(*kv) == 0 {
-		return nil
-	}
-	if !strings.HasPrefix((*kv)[0][0], prefix) && t.Kind() != reflect.Map { // map can have 0 fields
-		*kv = (*kv)[1:]
-		return unflattenValue(prefix, v, t, kv)
-	}
+	text, found := lookup(*kv, prefix)
 
 	if v.IsValid() {
 		treatAsValue := false
@@ -218,37 +224,47 @@ func unflattenValue(prefix string, v reflect.Value, t reflect.Type, kv *[][2]str
 			treatAsValue = true
 		}
 		if treatAsValue {
-			vv, err := parseValue(v.Type(), (*kv)[0][1])
+			if !found {
+				return nil
+			}
+			vv, err := parseValue(v.Type(), text)
 			if err != nil {
 				return err
 			}
 			if vv.Type().AssignableTo(v.Type()) {
 				v.Set(vv)
 			}
-			*kv = (*kv)[1:]
 			return nil
 		}
 	}
 
 	switch t.Kind() {
 	case reflect.Ptr:
-		return unflattenValue(prefix, v, t.Elem(), kv)
+		if v.IsNil() {
+			if !found && len(nested(*kv, prefix)) == 0 {
+				return nil
+			}
+			v.Set(reflect.New(t.Elem()))
+		}
+		return unflattenValue(prefix, v.Elem(), t.Elem(), kv)
 	case reflect.Interface:
-		return unflattenValue(prefix, v.Elem(), v.Type(), kv)
+		if v.IsNil() {
+			return nil
+		}
+		return unflattenValue(prefix, v.Elem(), v.Elem().Type(), kv)
 	case reflect.Bool, reflect.Float32, reflect.Float64,
 		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
 		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,
 		reflect.String:
-		vv, err := parseValue(v.Type(), (*kv)[0][1])
+		if !found {
+			return nil
+		}
+		vv, err := parseValue(v.Type(), text)
 		if err != nil {
 			return err
 		}
-		v.Set(vv)
-		*kv = (*kv)[1:]
+		v.Set(vv.Convert(v.Type()))
 	case reflect.Struct:
-		if v.Kind() == reflect.Ptr {
-			v = v.Elem()
-		}
 		var vtfs []reflect.StructField
 		for i := 0; i < t.NumField(); i++ {
 			f := t.Field(i)
@@ -256,7 +272,6 @@ func unflattenValue(prefix string, v reflect.Value, t reflect.Type, kv *[][2]str
 				vtfs = append(vtfs, f)
 			}
 		}
-		sort.Sort(structFieldsByName(vtfs))
 		for _, vtf := range vtfs {
 			vf := v.FieldByIndex(vtf.Index)
 			if vf.IsValid() {
@@ -268,63 +283,36 @@ func unflattenValue(prefix string, v reflect.Value, t reflect.Type, kv *[][2]str
 		}
 	case reflect.Map:
 		m := reflect.MakeMap(t)
-		keyPrefix := prefix + "."
-		found := 0
-		for _, kvv := range *kv {
-			key, val := kvv[0], kvv[1]
-			if key < keyPrefix {
-				continue
-			}
-			if key > keyPrefix && !strings.HasPrefix(key, keyPrefix) {
-				break
-			}
-			vv, err := parseValue(t.Elem(), val)
+		for _, kvv := range nested(*kv, prefix) {
+			vv, err := parseValue(t.Elem(), kvv[1])
 			if err != nil {
 				return err
 			}
-			m.SetMapIndex(reflect.ValueOf(strings.TrimPrefix(key, keyPrefix)), vv)
-			*kv = (*kv)[1:]
-			found++
+			key := strings.TrimPrefix(kvv[0], nest(prefix, ""))
+			m.SetMapIndex(reflect.ValueOf(key).Convert(t.Key()), vv.Convert(t.Elem()))
 		}
-		if found > 0 {
+		if m.Len() > 0 {
 			v.Set(m)
 		}
 	case reflect.Slice, reflect.Array:
-		keyPrefix := prefix + "."
-		type elem struct {
-			i int
-			s string
+		if v.Kind() == reflect.Slice {
+			v.Set(reflect.Zero(t))
 		}
-		var elems []elem
-		maxI := 0
-		for _, kvv := range *kv {
-			key, val := kvv[0], kvv[1]
-			if !strings.HasPrefix(key, keyPrefix) {
+		for i := 0; ; i++ {
+			text, found := lookup(*kv, nest(prefix, strconv.Itoa(i)))
+			if !found || (v.Kind() == reflect.Array && i >= v.Len()) {
 				break
 			}
-
-			i, err := strconv.Atoi(strings.TrimPrefix(key, keyPrefix))
+			vv, err := parseValue(t.Elem(), text)
 			if err != nil {
 				return err
 			}
-
-			elems = append(elems, elem{i, val})
-			if i > maxI {
-				maxI = i
-			}
-
-			*kv = (*kv)[1:]
-		}
-
-		if v.Kind() == reflect.Slice {
-			v.Set(reflect.MakeSlice(t, maxI+1, maxI+1))
-		}
-		for _, e := range elems {
-			vv, err := parseValue(t.Elem(), e.s)
-			if err != nil {
-				return err
+			vv = vv.Convert(t.Elem())
+			if v.Kind() == reflect.Slice {
+				v.Set(reflect.Append(v, vv))
+			} else {
+				v.Index(i).Set(vv)
 			}
-			v.Index(e.i).Set(vv)
 		}
 	}
 
-- 
2.43.0


From bdd63fe4b8689e9621fb9c1fff4f7f05ba3d62fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:33 +0000
Subject: [PATCH 21/30] fix: pass a combined querier's options on to its parts

---
 multi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multi.go b/multi.go
index d3dd791..399c9ca 100644
--- a/multi.go
+++ b/multi.go
@@ -59,7 +59,7 @@ func (mq *multiQueryer) Traces(opts TracesOpts) ([]*Trace, error) {
 		all   []*Trace
 	)
 	for _, q := range mq.queryers {
-		traces, err := q.Traces(TracesOpts{})
+		traces, err := q.Traces(opts)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 37aaf7dd173b9ea75c61bd6ed3697dda85f70e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:31 +0000
Subject: [PATCH 22/30] fix: reject uploads with null or foreign spans before
 storing anything

An upload or permalink with a null trace or sub-span panicked after part of
it had been stored, and a sub-span with the ID of another trace was added to
that (existing) trace.
---
 traceapp/app.go   |  7 +++++++
 traceapp/trace.go | 24 +++++++++++++++++++++++-
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/traceapp/app.go b/traceapp/app.go
index 3c1fd73..4b321aa 100644
--- a/traceapp/app.go
+++ b/traceapp/app.go
@@ -311,6 +311,13 @@ func (a *App) serveTraceUpload(w http.ResponseWriter, r *http.Request) error {
 
 // uploadTraces uploads literal traces into the storage system for later viewing.
 func (a *App) uploadTraces(traces ...*appdash.Trace) error {
+	// Reject malformed traces before storing anything.
+	for _, trace := range traces {
+		if err := validateTrace(trace); err != nil {
+			return err
+		}
+	}
+
 	// Collect the unmarshaled traces, ignoring any previously existing ones (i.e.
 	// ones that would collide / be merged together).
 	for _, trace := range traces {
diff --git a/traceapp/trace.go b/traceapp/trace.go
index 70bdbc9..5f7ad29 100644
--- a/traceapp/trace.go
+++ b/traceapp/trace.go
@@ -1,6 +1,28 @@
 package traceapp
 
-import "sourcegraph.com/sourcegraph/appdash"
+import (
+	"errors"
+	"fmt"
+
+	"sourcegraph.com/sourcegraph/appdash"
+)
+
+// validateTrace returns an error if the given trace or any of its sub-spans is
+// nil, or if a sub-span belongs to another trace.
+func validateTrace(t *appdash.Trace) error {
+	if t == nil {
+		return errors.New("trace or span is null")
+	}
+	for _, sub := range t.Sub {
+		if err := validateTrace(sub); err != nil {
+			return err
+		}
+		if sub.ID.Trace != t.ID.Trace {
+			return fmt.Errorf("span %s does not belong to trace %s", sub.ID.Span, t.ID.Trace)
+		}
+	}
+	return nil
+}
 
 // collectTrace asks the given collector to collect all of the spans and
 // annotations in the given trace recursively. Any errors that occur during
-- 
2.43.0


From fdf755403670f25fd7b155908db56c1a0aaa0907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:31 +0000
Subject: [PATCH 23/30] fix: do not mix traces uploaded at the same time

Two uploads of the same new trace could both find it missing and then both
collect their spans into it.
---
 traceapp/app.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/traceapp/app.go b/traceapp/app.go
index 4b321aa..a1ff9fa 100644
--- a/traceapp/app.go
+++ b/traceapp/app.go
@@ -46,6 +46,8 @@ type App struct {
 	tmplLock sync.Mutex
 	tmpls    map[string]*htmpl.Template
 
+	uploadLock sync.Mutex // held while traces are uploaded
+
 	Log     *log.Logger
 	baseURL *url.URL
 }
@@ -318,6 +320,11 @@ func (a *App) uploadTraces(traces ...*appdash.Trace) error {
 		}
 	}
 
+	// Concurrent uploads of the same trace must not both find that there is no
+	// such trace yet.
+	a.uploadLock.Lock()
+	defer a.uploadLock.Unlock()
+
 	// Collect the unmarshaled traces, ignoring any previously existing ones (i.e.
 	// ones that would collide / be merged together).
 	for _, trace := range traces {
-- 
2.43.0


From 7bc0dfbbd08d18787e9ee415168c98d73ba3212c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:33 +0000
Subject: [PATCH 24/30] fix: do not add one to aggregated times that start with
 zero

---
 traceapp/aggregate.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/traceapp/aggregate.go b/traceapp/aggregate.go
index 0a4c31e..d573052 100644
--- a/traceapp/aggregate.go
+++ b/traceapp/aggregate.go
@@ -56,9 +56,6 @@ func (a *App) aggregate(traces []*appdash.Trace, mode aggMode) ([]*aggItem, erro
 
 		// Perform aggregation.
 		i.Value += value
-		if i.Value == 0 {
-			i.Value = 1 // Must be positive values or else d3pie won't render.
-		}
 	}
 
 	for _, trace := range traces {
@@ -85,6 +82,9 @@ func (a *App) aggregate(traces []*appdash.Trace, mode aggMode) ([]*aggItem, erro
 	// Form an array (d3pie needs a JSON array, not a map).
 	list := make([]*aggItem, 0, len(aggregated))
 	for _, item := range aggregated {
+		if item.Value == 0 {
+			item.Value = 1 // Must be positive values or else d3pie won't render.
+		}
 		list = append(list, item)
 	}
 	return list, nil
-- 
2.43.0


From 7090eaa84d93100f1be6b189ba35b1f26067ca5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:33 +0000
Subject: [PATCH 25/30] fix: label every timeline entry with its own duration

---
 traceapp/vis.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceapp/vis.go b/traceapp/vis.go
index 3fe0afd..b52d6b4 100644
--- a/traceapp/vis.go
+++ b/traceapp/vis.go
@@ -125,7 +125,7 @@ func (a *App) d3timelineInner(t *appdash.Trace, depth int) ([]timelineItem, erro
 		}
 	}
 	for _, ts := range item.Times {
-		msec := time.Duration(item.Times[0].End-item.Times[0].Start) * time.Millisecond
+		msec := time.Duration(ts.End-ts.Start) * time.Millisecond
 		if msec > 0 {
 			ts.Label = fmt.Sprintf("%s (%s)", item.Label, msec)
 			ts.Duration = int64(msec)
-- 
2.43.0


From 985aaa55be801c0b71cda896c48e2a7a5e166411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:15 +0000
Subject: [PATCH 26/30] fix: do not write the schema into a slice that an event
 marshaler owns

---
 event.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/event.go b/event.go
index 6dfcac0..746cadf 100644
--- a/event.go
+++ b/event.go
@@ -46,7 +46,9 @@ func MarshalEvent(e Event) (Annotations, error) {
 		if err != nil {
 			return nil, err
 		}
-		as = append(as, Annotation{Key: SchemaPrefix + e.Schema()})
+		// The capacity is capped so that the schema is never written into
+		// spare capacity of a slice that the event still owns.
+		as = append(as[:len(as):len(as)], Annotation{Key: SchemaPrefix + e.Schema()})
 		return as, nil
 	}
 
-- 
2.43.0


From 75b2e59d1aba41a5f8c4f331032e3ab53d16e6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:15 +0000
Subject: [PATCH 27/30] fix: report sample data that could not be sent

---
 cmd/appdash/sample_data.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmd/appdash/sample_data.go b/cmd/appdash/sample_data.go
index bfc44e4..942a00d 100644
--- a/cmd/appdash/sample_data.go
+++ b/cmd/appdash/sample_data.go
@@ -51,6 +51,9 @@ func sampleData(c appdash.Collector) error {
 			Tag:        fmt.Sprintf("fakeTag%d", rand.Intn(10)),
 		})
 		traceRec.Finish()
+		if errs := traceRec.Errors(); len(errs) > 0 {
+			return fmt.Errorf("recorder errors: %v", errs)
+		}
 
 		// We'll split the trace into N (3-7) spans (i.e. "N operations") each with
 		// a random duration of time adding up to the length of the trace.
@@ -83,13 +86,13 @@ func sampleData(c appdash.Collector) error {
 			// Shift the start time forward.
 			startTime = startTime.Add(spanDuration)
 
+			lastSpanID = spanID
+			rec.Finish()
+
 			// Check for any recorder errors.
 			if errs := rec.Errors(); len(errs) > 0 {
 				return fmt.Errorf("recorder errors: %v", errs)
 			}
-
-			lastSpanID = spanID
-			rec.Finish()
 		}
 	}
 	return nil
-- 
2.43.0


From 02ee1d076d333b165fd389b830b9cec9b0a60b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:15 +0000
Subject: [PATCH 28/30] fix: delete traces that were read from the store file,
 too

---
 cmd/appdash/serve_cmd.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cmd/appdash/serve_cmd.go b/cmd/appdash/serve_cmd.go
index 7bb561d..2024813 100644
--- a/cmd/appdash/serve_cmd.go
+++ b/cmd/appdash/serve_cmd.go
@@ -94,6 +94,17 @@ func (c *ServeCmd) Execute(args []string) error {
 			DeleteStore: memStore,
 			Debug:       true,
 		}
+
+		// The traces that were read from the file age from now on.
+		traces, err := memStore.Traces(appdash.TracesOpts{})
+		if err != nil {
+			return err
+		}
+		for _, t := range traces {
+			if err := Store.Collect(t.Span.ID); err != nil {
+				return err
+			}
+		}
 	}
 
 	url, err := c.urlOrDefault()
-- 
2.43.0


From 53480954db494927f2ad15c1e4175d38b2c1adbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:38:57 +0000
Subject: [PATCH 29/30] fix: a trace deleted from a RecentStore and collected
 again is new

---
 store.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/store.go b/store.go
index 153eb63..15e0a32 100644
--- a/store.go
+++ b/store.go
@@ -480,6 +480,17 @@ func (rs *RecentStore) Collect(id SpanID, anns ...Annotation) error {
 	return err
 }
 
+// Delete calls the underlying store's Delete. A deleted trace that is collected
+// again is as old as that collection.
+func (rs *RecentStore) Delete(traces ...ID) error {
+	rs.mu.Lock()
+	for _, id := range traces {
+		delete(rs.created, id)
+	}
+	rs.mu.Unlock()
+	return rs.DeleteStore.Delete(traces...)
+}
+
 // evictBefore evicts traces that were created before t. The rs.mu lock
 // must be held while calling evictBefore.
 func (rs *RecentStore) evictBefore(t time.Time) {
-- 
2.43.0


From 71be4c883355c8546d0c49efc49fcc96fe064b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:38:57 +0000
Subject: [PATCH 30/30] fix: traces deleted from a LimitStore make room for
 others

---
 store.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/store.go b/store.go
index 15e0a32..fd7e417 100644
--- a/store.go
+++ b/store.go
@@ -576,3 +576,31 @@ func (ls *LimitStore) Collect(id SpanID, anns ...Annotation) error {
 
 	return ls.DeleteStore.Collect(id, anns...)
 }
+
+// Delete calls the underlying store's Delete, and makes room for new traces in
+// place of the deleted ones.
+func (ls *LimitStore) Delete(traces ...ID) error {
+	ls.mu.Lock()
+	defer ls.mu.Unlock()
+	if err := ls.DeleteStore.Delete(traces...); err != nil {
+		return err
+	}
+	if ls.ring == nil {
+		return nil
+	}
+	n := len(ls.traces) // the ring's last n slots are in use
+	for _, id := range traces {
+		delete(ls.traces, id)
+	}
+	ring := make([]int64, ls.Max)
+	kept := 0
+	for i := ls.Max - n; i < ls.Max; i++ { // oldest first
+		old := ls.ring[(ls.nextInsertIdx+i)%ls.Max]
+		if _, ok := ls.traces[ID(old)]; ok {
+			ring[kept] = old
+			kept++
+		}
+	}
+	ls.ring, ls.nextInsertIdx = ring, kept%ls.Max
+	return nil
+}
-- 
2.43.0

