From 8f505000d272b7204a4625b1677e86c277a2c9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 01/35] fix: keep spans with cyclic parent references in their
 trace tree

A span whose parent is itself or one of its own descendants was attached
below itself, detaching the whole loop from the trace (and making gob
encoding recurse forever). Such a span now stays under the root.
---
 store.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/store.go b/store.go
index 53dcc6f..96f5ba7 100644
--- a/store.go
+++ b/store.go
@@ -165,7 +165,6 @@ func (ms *MemoryStore) collectNoLock(id SpanID, as ...Annotation) error {
 		}
 		ms.trace[id.Trace] = root // set new root
 		ms.reattachChildren(root, oldRoot)
-		ms.insert(root, oldRoot) // reinsert the old root
 
 		// Move the old temp root's temp children to the new
 		// (possibly temp) root.
@@ -181,12 +180,8 @@ func (ms *MemoryStore) collectNoLock(id SpanID, as ...Annotation) error {
 			}
 		}
 		oldRoot.Sub = sub2
-	}
 
-	// Insert into trace tree. (We inserted the trace root span
-	// above.)
-	if !id.IsRoot() && s != root {
-		ms.insert(root, s)
+		ms.insert(root, oldRoot) // reinsert the old root
 	}
 
 	// See if we're the parent of any of the root's temporary
@@ -195,6 +190,12 @@ func (ms *MemoryStore) collectNoLock(id SpanID, as ...Annotation) error {
 		ms.reattachChildren(s, root)
 	}
 
+	// Insert into trace tree. (We inserted the trace root span
+	// above.)
+	if !id.IsRoot() && s != root {
+		ms.insert(root, s)
+	}
+
 	return nil
 }
 
@@ -202,14 +203,16 @@ func (ms *MemoryStore) collectNoLock(id SpanID, as ...Annotation) error {
 // root.
 func (ms *MemoryStore) insert(root, t *Trace) {
 	p, present := ms.span[t.ID.Trace][t.ID.Parent]
-	if present {
+	if present && t.FindSpan(p.Span.ID.Span) == nil {
 		if ms.log {
 			log.Printf("Add %v as a child of parent %v", t.Span.ID, p.Span.ID)
 		}
 		p.Sub = append(p.Sub, t)
 	} else {
 		// Add as temporary child of the root for now. When the
-		// real parent is added, we'll fix it up later.
+		// real parent is added, we'll fix it up later. (If the
+		// parent is t itself or one of its descendants, adding t
+		// there would detach both from the tree, so t stays here.)
 		if ms.log {
 			log.Printf("Add %v as a temporary child of root %v", t.Span.ID, root.Span.ID)
 		}
-- 
2.43.0


From 92ff43803bd6e9d2d45cc5260912f76b4bb98e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:07 +0000
Subject: [PATCH 02/35] fix: do not retain the annotation slice passed to
 Collect

MemoryStore and ChunkedCollector kept the caller's slice and appended to
it, overwriting the caller's (or another span's) annotations whenever the
slice had spare capacity or was reused.
---
 collector.go | 3 ++-
 store.go     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/collector.go b/collector.go
index 26eb9cd..de26e1f 100644
--- a/collector.go
+++ b/collector.go
@@ -192,7 +192,8 @@ func (cc *ChunkedCollector) Collect(span SpanID, anns ...Annotation) error {
 			cc.pendingBySpanID[span] = append(p, anns...)
 		}
 	} else {
-		cc.pendingBySpanID[span] = anns
+		// Copy the annotations, the slice belongs to the caller.
+		cc.pendingBySpanID[span] = append(Annotations(nil), anns...)
 	}
 
 	if err := cc.lastErr; err != nil {
diff --git a/store.go b/store.go
index 96f5ba7..03ec831 100644
--- a/store.go
+++ b/store.go
@@ -122,7 +122,8 @@ func (ms *MemoryStore) collectNoLock(id SpanID, as ...Annotation) error {
 	// Create or update span.
 	s, present := ms.span[id.Trace][id.Span]
 	if !present {
-		s = &Trace{Span: Span{ID: id, Annotations: as}}
+		// Copy the annotations, the slice belongs to the caller.
+		s = &Trace{Span: Span{ID: id, Annotations: append(Annotations(nil), as...)}}
 		ms.span[id.Trace][id.Span] = s
 	} else {
 		if ms.log {
-- 
2.43.0


From 2f4d921c9811c2e32a4dab84b6449000273f7665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:47 +0000
Subject: [PATCH 03/35] fix: honor TraceIDs in MemoryStore.Traces

---
 store.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/store.go b/store.go
index 03ec831..dd01710 100644
--- a/store.go
+++ b/store.go
@@ -264,8 +264,20 @@ func (ms *MemoryStore) Traces(opts TracesOpts) ([]*Trace, error) {
 	ms.Lock()
 	defer ms.Unlock()
 
+	// only is the set of trace IDs asked for, if any.
+	var only map[ID]bool
+	if len(opts.TraceIDs) > 0 {
+		only = make(map[ID]bool, len(opts.TraceIDs))
+		for _, id := range opts.TraceIDs {
+			only[id] = true
+		}
+	}
+
 	var ts []*Trace
 	for id := range ms.trace {
+		if only != nil && !only[id] {
+			continue
+		}
 		t, err := ms.traceNoLock(id)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From c7f8838f0f8a90e34e46d37fe66860daacc18ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:28 +0000
Subject: [PATCH 04/35] fix: keep trace trees and span index shared after
 MemoryStore.ReadFrom

---
 store.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/store.go b/store.go
index dd01710..f7062a1 100644
--- a/store.go
+++ b/store.go
@@ -358,11 +358,27 @@ func (ms *MemoryStore) ReadFrom(r io.Reader) (int64, error) {
 	if err := gob.NewDecoder(r).Decode(&data); err != nil {
 		return 0, err
 	}
-	ms.trace = data.Trace
-	ms.span = data.Span
+
+	// gob flattens pointers, so the spans decoded in data.Span are copies of
+	// those in the trace trees. Index the spans of the trees instead.
+	ms.trace = map[ID]*Trace{}
+	ms.span = map[ID]map[ID]*Trace{}
+	for id, t := range data.Trace {
+		ms.trace[id] = t
+		ms.span[id] = map[ID]*Trace{}
+		indexSpans(ms.span[id], t)
+	}
 	return int64(len(ms.trace)), nil
 }
 
+// indexSpans adds t and all of its subspans to m, by span ID.
+func indexSpans(m map[ID]*Trace, t *Trace) {
+	m[t.Span.ID.Span] = t
+	for _, s := range t.Sub {
+		indexSpans(m, s)
+	}
+}
+
 // PersistentStore is a Store that can persist its data and read it
 // back in.
 type PersistentStore interface {
-- 
2.43.0


From f0af2745634d91450db316924295a41b5f1ebddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:28 +0000
Subject: [PATCH 05/35] fix: pass the options of MultiQueryer.Traces on to its
 queryers

---
 multi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multi.go b/multi.go
index d3dd791..399c9ca 100644
--- a/multi.go
+++ b/multi.go
@@ -59,7 +59,7 @@ func (mq *multiQueryer) Traces(opts TracesOpts) ([]*Trace, error) {
 		all   []*Trace
 	)
 	for _, q := range mq.queryers {
-		traces, err := q.Traces(TracesOpts{})
+		traces, err := q.Traces(opts)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 5369f7a7214d8ae7f63b12d47277b1a7fb3abd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:56 +0000
Subject: [PATCH 06/35] fix: return copies of the stored traces from
 MemoryStore queries

---
 store.go |  2 +-
 trace.go | 16 ++++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/store.go b/store.go
index f7062a1..6aa2164 100644
--- a/store.go
+++ b/store.go
@@ -256,7 +256,7 @@ func (ms *MemoryStore) traceNoLock(id ID) (*Trace, error) {
 	if !present {
 		return nil, ErrTraceNotFound
 	}
-	return t, nil
+	return t.copy(), nil
 }
 
 // Traces implements the Queryer interface.
diff --git a/trace.go b/trace.go
index e53533f..0c22c50 100644
--- a/trace.go
+++ b/trace.go
@@ -25,6 +25,22 @@ func (t *Trace) String() string {
 	return string(b)
 }
 
+// copy returns a copy of the tree that shares no spans or annotation lists with
+// t, so that it can be used while t is being modified.
+func (t *Trace) copy() *Trace {
+	c := &Trace{Span: Span{ID: t.Span.ID}}
+	if t.Annotations != nil {
+		c.Annotations = append(Annotations{}, t.Annotations...)
+	}
+	if t.Sub != nil {
+		c.Sub = make([]*Trace, len(t.Sub))
+		for i, sub := range t.Sub {
+			c.Sub[i] = sub.copy()
+		}
+	}
+	return c
+}
+
 // FindSpan recursively searches for a span whose Span ID is spanID in
 // t and its descendants. If no such span is found, nil is returned.
 func (t *Trace) FindSpan(spanID ID) *Trace {
-- 
2.43.0


From f1145285b6c46aa36572f65219a832e8eaba578b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:39 +0000
Subject: [PATCH 07/35] fix: keep traces collected during an eviction by
 RecentStore

---
 store.go | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/store.go b/store.go
index 6aa2164..4e10bcb 100644
--- a/store.go
+++ b/store.go
@@ -442,17 +442,19 @@ type RecentStore struct {
 // Collect calls the underlying store's Collect and records the time
 // that this trace was first seen.
 func (rs *RecentStore) Collect(id SpanID, anns ...Annotation) error {
+	// Hold the lock while collecting, so that an eviction can't come between
+	// recording that the trace exists and storing the span.
 	rs.mu.Lock()
+	defer rs.mu.Unlock()
 	if rs.created == nil {
 		rs.created = map[ID]int64{}
 	}
-	if _, present := rs.created[id.Trace]; !present {
-		rs.created[id.Trace] = time.Now().UnixNano()
-	}
 	if time.Since(rs.lastEvicted) > rs.MinEvictAge {
 		rs.evictBefore(time.Now().Add(-1 * rs.MinEvictAge))
 	}
-	rs.mu.Unlock()
+	if _, present := rs.created[id.Trace]; !present {
+		rs.created[id.Trace] = time.Now().UnixNano()
+	}
 
 	return rs.DeleteStore.Collect(id, anns...)
 }
@@ -478,16 +480,15 @@ func (rs *RecentStore) evictBefore(t time.Time) {
 		log.Printf("RecentStore: deleting %d traces created before %s (age check took %s)", len(toEvict), t, time.Since(evictStart))
 	}
 
-	// Spawn separate goroutine so we don't hold the rs.mu lock.
-	go func() {
-		deleteStart := time.Now()
-		if err := rs.DeleteStore.Delete(toEvict...); err != nil {
-			log.Printf("RecentStore: failed to delete traces: %s", err)
-		}
-		if rs.Debug {
-			log.Printf("RecentStore: finished deleting %d traces created before %s (took %s)", len(toEvict), t, time.Since(deleteStart))
-		}
-	}()
+	// Delete before anything else is collected: the traces aren't tracked
+	// anymore and may be collected again.
+	deleteStart := time.Now()
+	if err := rs.DeleteStore.Delete(toEvict...); err != nil {
+		log.Printf("RecentStore: failed to delete traces: %s", err)
+	}
+	if rs.Debug {
+		log.Printf("RecentStore: finished deleting %d traces created before %s (took %s)", len(toEvict), t, time.Since(deleteStart))
+	}
 }
 
 // A LimitStore wraps another store and deletes the oldest trace when
-- 
2.43.0


From 14e218891af1938a3c3a49e1a087aa7f0f368b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:55 +0000
Subject: [PATCH 08/35] fix: let LimitStore evict a trace with ID 0

---
 store.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/store.go b/store.go
index 4e10bcb..2d36d22 100644
--- a/store.go
+++ b/store.go
@@ -528,14 +528,13 @@ func (ls *LimitStore) Collect(id SpanID, anns ...Annotation) error {
 		return ls.DeleteStore.Collect(id, anns...)
 	}
 
-	if nextInsert := ls.ring[ls.nextInsertIdx]; nextInsert != 0 {
-		// Store is at capacity (we know this because the next insert
-		// slot already contains trace); delete oldest.
+	if len(ls.traces) >= ls.Max {
+		// Store is at capacity; delete oldest.
 		old := ID(ls.ring[ls.nextInsertIdx])
-		delete(ls.traces, old)
 		if err := ls.DeleteStore.Delete(old); err != nil {
 			return err
 		}
+		delete(ls.traces, old)
 	}
 	ls.traces[id.Trace] = struct{}{}
 	ls.ring[ls.nextInsertIdx] = int64(id.Trace)
-- 
2.43.0


From 210d1eeeb5801b46cbe3dc07fee9edb9324a37b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:57 +0000
Subject: [PATCH 09/35] fix: allow ChunkedCollector.Stop before the first
 Collect and more than once

---
 collector.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collector.go b/collector.go
index de26e1f..3950fb7 100644
--- a/collector.go
+++ b/collector.go
@@ -269,7 +269,9 @@ func (cc *ChunkedCollector) start() {
 func (cc *ChunkedCollector) Stop() {
 	cc.mu.Lock()
 	defer cc.mu.Unlock()
-	close(cc.stopChan)
+	if cc.started && !cc.stopped {
+		close(cc.stopChan)
+	}
 	cc.stopped = true
 }
 
-- 
2.43.0


From 30d2e25a8a1c91d3de36729e2763537d5291cdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:00 +0000
Subject: [PATCH 10/35] fix: accept wire span IDs without a parent

---
 span.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/span.go b/span.go
index 0f960b7..a31fee4 100644
--- a/span.go
+++ b/span.go
@@ -73,7 +73,7 @@ func spanIDFromWire(w *wire.CollectPacket_SpanID) SpanID {
 	return SpanID{
 		Trace:  ID(*w.Trace),
 		Span:   ID(*w.Span),
-		Parent: ID(*w.Parent),
+		Parent: ID(w.GetParent()),
 	}
 }
 
-- 
2.43.0


From 42705eda361f7ef6b006c35336df8acc0b4f9de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:53 +0000
Subject: [PATCH 11/35] fix: do not lose precision of float64 and duration
 event fields

---
 reflect.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reflect.go b/reflect.go
index fe33dba..a507fa7 100644
--- a/reflect.go
+++ b/reflect.go
@@ -2,6 +2,7 @@ package appdash
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"sort"
 	"strconv"
@@ -104,7 +105,7 @@ func parseValueToPtr(as reflect.Type, s string) (reflect.Value, error) {
 		if err != nil {
 			return reflect.Value{}, err
 		}
-		d := time.Duration(usec * float64(time.Millisecond))
+		d := time.Duration(math.Round(usec * float64(time.Millisecond)))
 		return reflect.ValueOf(&d), nil
 	}
 
@@ -118,7 +119,7 @@ func parseValueToPtr(as reflect.Type, s string) (reflect.Value, error) {
 		}
 		return reflect.ValueOf(&vv), nil
 	case reflect.Float32, reflect.Float64:
-		vv, err := strconv.ParseFloat(s, 32)
+		vv, err := strconv.ParseFloat(s, as.Bits())
 		if err != nil {
 			return reflect.Value{}, err
 		}
-- 
2.43.0


From 4e0a6d3463dee9ffecbb431a39362c1da688941a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:07 +0000
Subject: [PATCH 12/35] fix: unmarshal events with unset, pointer and
 named-type fields

---
 reflect.go | 97 ++++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 80 insertions(+), 17 deletions(-)

diff --git a/reflect.go b/reflect.go
index a507fa7..44b94b1 100644
--- a/reflect.go
+++ b/reflect.go
@@ -12,7 +12,14 @@ import (
 )
 
 func flattenValue(prefix string, v reflect.Value, f func(k, v string)) {
+	if v.Kind() == reflect.Ptr && v.IsNil() {
+		return // unset
+	}
+
 	switch o := v.Interface().(type) {
+	case *time.Time, *time.Duration:
+		flattenValue(prefix, v.Elem(), f)
+		return
 	case time.Time:
 		f(prefix, o.Format(time.RFC3339Nano))
 		return
@@ -76,19 +83,55 @@ func (v kvsByKey) Swap(i, j int)      { v[i], v[j] = v[j], v[i] }
 
 type structFieldsByName []reflect.StructField
 
-func (v structFieldsByName) Len() int           { return len(v) }
-func (v structFieldsByName) Less(i, j int) bool { return fieldName(v[i]) < fieldName(v[j]) }
-func (v structFieldsByName) Swap(i, j int)      { v[i], v[j] = v[j], v[i] }
+func (v structFieldsByName) Len() int { return len(v) }
+func (v structFieldsByName) Less(i, j int) bool {
+	return firstKey(fieldName(v[i]), v[i].Type) < firstKey(fieldName(v[j]), v[j].Type)
+}
+func (v structFieldsByName) Swap(i, j int) { v[i], v[j] = v[j], v[i] }
+
+// firstKey returns the string that the keys of all values of the named field
+// of type t begin with.
+func firstKey(name string, t reflect.Type) string {
+	for t.Kind() == reflect.Ptr {
+		t = t.Elem()
+	}
+	switch t.Kind() {
+	case reflect.Struct:
+		if t == reflect.TypeOf(time.Time{}) {
+			return name
+		}
+		return name + "."
+	case reflect.Map, reflect.Slice, reflect.Array:
+		return name + "."
+	}
+	return name
+}
+
+// alloc returns v or, if v is a pointer to a t, what v points to, setting it to
+// a new t if it's nil.
+func alloc(v reflect.Value, t reflect.Type) reflect.Value {
+	if v.Kind() != reflect.Ptr {
+		return v
+	}
+	if v.IsNil() {
+		v.Set(reflect.New(t))
+	}
+	return v.Elem()
+}
 
 func parseValue(as reflect.Type, s string) (reflect.Value, error) {
 	vp, err := parseValueToPtr(as, s)
 	if err != nil {
 		return reflect.Value{}, err
 	}
+	v := vp.Elem()
 	if as.Kind() == reflect.Ptr {
-		return vp, nil
+		v = vp
 	}
-	return vp.Elem(), nil
+	if !v.Type().ConvertibleTo(as) {
+		return reflect.Value{}, fmt.Errorf("can't parse value of type %s", as)
+	}
+	return v.Convert(as), nil // as may be a named type
 }
 
 func parseValueToPtr(as reflect.Type, s string) (reflect.Value, error) {
@@ -175,28 +218,36 @@ func parseValueToPtr(as reflect.Type, s string) (reflect.Value, error) {
 	case reflect.String:
 		return reflect.ValueOf(&s), nil
 	}
-	return reflect.Value{}, nil
+	return reflect.Value{}, fmt.Errorf("can't parse value of type %s", as)
 }
 
 func unflattenValue(prefix string, v reflect.Value, t reflect.Type, kv *[][2]string) error {
 	if !sort.IsSorted(kvsByKey(*kv)) {
 		panic("unflattenValue: kv must be sorted (using kvsByKey)")
 	}
-	if len(*kv) == 0 {
-		return nil
+
+	// Skip the values of other fields. The field itself may have no values.
+	first := prefix
+	if prefix != "" {
+		first = firstKey(prefix, t)
 	}
-	if !strings.HasPrefix((*kv)[0][0], prefix) && t.Kind() != reflect.Map { // map can have 0 fields
+	for len(*kv) > 0 && (*kv)[0][0] < first {
 		*kv = (*kv)[1:]
-		return unflattenValue(prefix, v, t, kv)
+	}
+	if len(*kv) == 0 || !strings.HasPrefix((*kv)[0][0], first) {
+		return nil
 	}
 
 	if v.IsValid() {
 		treatAsValue := false
-		switch v.Interface().(type) {
-		case time.Time:
+		switch t {
+		case reflect.TypeOf(time.Time{}):
 			treatAsValue = true
 		}
 		if treatAsValue {
+			if (*kv)[0][0] != prefix {
+				return nil
+			}
 			vv, err := parseValue(v.Type(), (*kv)[0][1])
 			if err != nil {
 				return err
@@ -218,6 +269,9 @@ func unflattenValue(prefix string, v reflect.Value, t reflect.Type, kv *[][2]str
 		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
 		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,
 		reflect.String:
+		if (*kv)[0][0] != prefix {
+			return nil
+		}
 		vv, err := parseValue(v.Type(), (*kv)[0][1])
 		if err != nil {
 			return err
@@ -225,9 +279,7 @@ func unflattenValue(prefix string, v reflect.Value, t reflect.Type, kv *[][2]str
 		v.Set(vv)
 		*kv = (*kv)[1:]
 	case reflect.Struct:
-		if v.Kind() == reflect.Ptr {
-			v = v.Elem()
-		}
+		v = alloc(v, t)
 		var vtfs []reflect.StructField
 		for i := 0; i < t.NumField(); i++ {
 			f := t.Field(i)
@@ -246,6 +298,9 @@ func unflattenValue(prefix string, v reflect.Value, t reflect.Type, kv *[][2]str
 			}
 		}
 	case reflect.Map:
+		if t.Key().Kind() != reflect.String {
+			return fmt.Errorf("can't parse map key of type %s", t.Key())
+		}
 		m := reflect.MakeMap(t)
 		keyPrefix := prefix + "."
 		found := 0
@@ -261,12 +316,12 @@ func unflattenValue(prefix string, v reflect.Value, t reflect.Type, kv *[][2]str
 			if err != nil {
 				return err
 			}
-			m.SetMapIndex(reflect.ValueOf(strings.TrimPrefix(key, keyPrefix)), vv)
+			m.SetMapIndex(reflect.ValueOf(strings.TrimPrefix(key, keyPrefix)).Convert(t.Key()), vv)
 			*kv = (*kv)[1:]
 			found++
 		}
 		if found > 0 {
-			v.Set(m)
+			alloc(v, t).Set(m)
 		}
 	case reflect.Slice, reflect.Array:
 		keyPrefix := prefix + "."
@@ -276,6 +331,11 @@ func unflattenValue(prefix string, v reflect.Value, t reflect.Type, kv *[][2]str
 		}
 		var elems []elem
 		maxI := 0
+		v = alloc(v, t)
+		maxLen := len(*kv) // every element has a value
+		if v.Kind() == reflect.Array {
+			maxLen = v.Len()
+		}
 		for _, kvv := range *kv {
 			key, val := kvv[0], kvv[1]
 			if !strings.HasPrefix(key, keyPrefix) {
@@ -286,6 +346,9 @@ func unflattenValue(prefix string, v reflect.Value, t reflect.Type, kv *[][2]str
 			if err != nil {
 				return err
 			}
+			if i < 0 || i >= maxLen {
+				return fmt.Errorf("index out of range: %s", key)
+			}
 
 			elems = append(elems, elem{i, val})
 			if i > maxI {
-- 
2.43.0


From 4ec3ebc1c5369df15d165527ba73734ac1514b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:06 +0000
Subject: [PATCH 13/35] fix: serialize flushes of ChunkedCollector

---
 collector.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/collector.go b/collector.go
index 3950fb7..cc7157e 100644
--- a/collector.go
+++ b/collector.go
@@ -127,6 +127,9 @@ type ChunkedCollector struct {
 
 	// mu protects pendingBySpanID, lastErr, started, stopped, and stopChan.
 	mu sync.Mutex
+
+	// flushMu is held during a flush.
+	flushMu sync.Mutex
 }
 
 // NewChunkedCollector is shorthand for:
@@ -206,6 +209,11 @@ func (cc *ChunkedCollector) Collect(span SpanID, anns ...Annotation) error {
 // Flush immediately sends all pending spans to the underlying
 // collector.
 func (cc *ChunkedCollector) Flush() error {
+	// One flush at a time, otherwise a later flush could send annotations on a
+	// span before an earlier one does.
+	cc.flushMu.Lock()
+	defer cc.flushMu.Unlock()
+
 	start := time.Now()
 
 	cc.mu.Lock()
-- 
2.43.0


From f4b33224566c8e532e429f90ff4371a637a02264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:22 +0000
Subject: [PATCH 14/35] fix: handle requests with invalid span ID headers in
 httptrace.Middleware

getSpanID returns a nil span ID with the error, which was dereferenced. Use a
new root span instead.
---
 httptrace/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httptrace/server.go b/httptrace/server.go
index ce804bf..5bc2420 100644
--- a/httptrace/server.go
+++ b/httptrace/server.go
@@ -71,6 +71,8 @@ func Middleware(c appdash.Collector, conf *MiddlewareConfig) func(rw http.Respon
 		spanID, spanFromHeader, err := getSpanID(r.Header)
 		if err != nil {
 			log.Printf("Warning: invalid %s header: %s. (Continuing with request handling.)", spanFromHeader, err)
+			newSpanID := appdash.NewRootSpanID()
+			spanID, spanFromHeader = &newSpanID, ""
 		}
 		usingProvidedSpanID := (spanFromHeader == HeaderSpanID)
 
-- 
2.43.0


From 77a9e591ce49237a07bb853ddfbec609577f640e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:24 +0000
Subject: [PATCH 15/35] fix: record the status and length of the response that
 is sent

The server event had the last status code passed to WriteHeader (also an
informational or superfluous one) and counted bytes that were not written.
---
 httptrace/server.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/httptrace/server.go b/httptrace/server.go
index 5bc2420..512cc03 100644
--- a/httptrace/server.go
+++ b/httptrace/server.go
@@ -154,18 +154,19 @@ func SpanIDFromContext(ctx context.Context) (spanID appdash.SpanID, ok bool) {
 // buffering the response body.
 type responseInfoRecorder struct {
 	statusCode    int   // HTTP response status code
-	ContentLength int64 // number of bytes written using the Write method
+	ContentLength int64 // number of bytes that the Write method has written
 
 	http.ResponseWriter // underlying ResponseWriter to pass-thru to
 }
 
-// Write always succeeds and writes to r.Body, if not nil.
+// Write writes to the underlying http.ResponseWriter.
 func (r *responseInfoRecorder) Write(b []byte) (int, error) {
-	r.ContentLength += int64(len(b))
 	if r.statusCode == 0 {
 		r.statusCode = http.StatusOK
 	}
-	return r.ResponseWriter.Write(b)
+	n, err := r.ResponseWriter.Write(b)
+	r.ContentLength += int64(n)
+	return n, err
 }
 
 func (r *responseInfoRecorder) StatusCode() int {
@@ -175,10 +176,13 @@ func (r *responseInfoRecorder) StatusCode() int {
 	return r.statusCode
 }
 
-// WriteHeader sets r.Code.
+// WriteHeader records the first final status code, which is the one that is
+// sent.
 func (r *responseInfoRecorder) WriteHeader(code int) {
-	r.statusCode = code
 	r.ResponseWriter.WriteHeader(code)
+	if r.statusCode == 0 && (code >= 200 || code == http.StatusSwitchingProtocols) {
+		r.statusCode = code
+	}
 }
 
 // partialResponse constructs a partial response object based on the
@@ -196,6 +200,9 @@ func (r *responseInfoRecorder) partialResponse() *http.Response {
 // implements http.Flusher.
 func (r *responseInfoRecorder) Flush() {
 	if f, ok := r.ResponseWriter.(http.Flusher); ok {
+		if r.statusCode == 0 {
+			r.statusCode = http.StatusOK
+		}
 		f.Flush()
 	}
 }
-- 
2.43.0


From 60f7a27b85ef710521a2d7d12a79825e111caef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:54 +0000
Subject: [PATCH 16/35] fix: redact trailers sent by prefix, and record all
 header values

Handlers can send the trailer X by setting the header Trailer:X, which was not
redacted. Values of fields whose names differ in case replaced each other, and
trailer values were appended to the request's or response's own slices.
---
 httptrace/client.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/httptrace/client.go b/httptrace/client.go
index 0fa6fc7..bc569e9 100644
--- a/httptrace/client.go
+++ b/httptrace/client.go
@@ -81,13 +81,15 @@ var (
 func redactHeaders(header, trailer http.Header) map[string]string {
 	h := make(http.Header, len(header)+len(trailer))
 	for k, v := range header {
+		k = http.CanonicalHeaderKey(k)
 		if isRedacted(k) {
 			h[k] = redacted
 		} else {
-			h[k] = v
+			h[k] = append(h[k], v...)
 		}
 	}
 	for k, v := range trailer {
+		k = http.CanonicalHeaderKey(k)
 		if isRedacted(k) {
 			h[k] = redacted
 		} else {
@@ -96,12 +98,14 @@ func redactHeaders(header, trailer http.Header) map[string]string {
 	}
 	m := make(map[string]string, len(h))
 	for k, v := range h {
-		m[http.CanonicalHeaderKey(k)] = strings.Join(v, ",")
+		m[k] = strings.Join(v, ",")
 	}
 	return m
 }
 
 func isRedacted(name string) bool {
+	// A handler's unannounced trailers have this prefix.
+	name = strings.TrimPrefix(name, http.TrailerPrefix)
 	for _, v := range RedactedHeaders {
 		if strings.EqualFold(name, v) {
 			return true
-- 
2.43.0


From a756d18671cc02582ce976f0505fd61ca649bc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:37 +0000
Subject: [PATCH 17/35] fix: traceapp: ignore timespans without start or end in
 profiles

A span with a timespan event whose start time is missing was profiled
as having taken 292 years. The timeline already ignores such events.
---
 traceapp/prof.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/traceapp/prof.go b/traceapp/prof.go
index 80f5adf..3d0ae23 100644
--- a/traceapp/prof.go
+++ b/traceapp/prof.go
@@ -58,6 +58,11 @@ func (a *App) calcProfile(buf []*profile, t *appdash.Trace) (prof []*profile, ch
 		if !ok {
 			continue
 		}
+		// Like the timeline, ignore events whose start or end time is missing:
+		// the difference of their times means nothing.
+		if ts.Start().IsZero() || ts.End().IsZero() {
+			continue
+		}
 		// To match the timeline properly we use floats and round up.
 		msf := float64(ts.End().Sub(ts.Start())) / float64(time.Millisecond)
 		ms := int64(msf + 0.5)
-- 
2.43.0


From cfaf5b902d54f40f9517e173345ae32244b34998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:37 +0000
Subject: [PATCH 18/35] fix: traceapp: give each timespan of the timeline its
 own duration

The label and duration of every timespan of a root span were those of
its first one.
---
 traceapp/vis.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceapp/vis.go b/traceapp/vis.go
index 3fe0afd..b52d6b4 100644
--- a/traceapp/vis.go
+++ b/traceapp/vis.go
@@ -125,7 +125,7 @@ func (a *App) d3timelineInner(t *appdash.Trace, depth int) ([]timelineItem, erro
 		}
 	}
 	for _, ts := range item.Times {
-		msec := time.Duration(item.Times[0].End-item.Times[0].Start) * time.Millisecond
+		msec := time.Duration(ts.End-ts.Start) * time.Millisecond
 		if msec > 0 {
 			ts.Label = fmt.Sprintf("%s (%s)", item.Label, msec)
 			ts.Duration = int64(msec)
-- 
2.43.0


From 101e81a7fae772e5a4ff8ddfc7a88ac07c1fc6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:37 +0000
Subject: [PATCH 19/35] fix: traceapp: keep timeline items below spans without
 a timespan

A span without any timespan event removed all of its descendants from
the timeline; at the root, the timeline was empty.
---
 traceapp/vis.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/traceapp/vis.go b/traceapp/vis.go
index b52d6b4..2f7c257 100644
--- a/traceapp/vis.go
+++ b/traceapp/vis.go
@@ -131,13 +131,12 @@ func (a *App) d3timelineInner(t *appdash.Trace, depth int) ([]timelineItem, erro
 			ts.Duration = int64(msec)
 		}
 	}
-	if len(item.Times) == 0 {
-		// Items with a null times array will crash d3-timeline.js as it tries
-		// to iterate over it. This means the trace doesn't have a single
-		// TimespanEvent and is thus invalid.
-		return nil, nil
+	// Items with a null times array will crash d3-timeline.js as it tries to
+	// iterate over it, so a span without a single TimespanEvent is left out
+	// (but not the spans below it).
+	if len(item.Times) > 0 {
+		items = append(items, item)
 	}
-	items = append(items, item)
 
 	for _, child := range t.Sub {
 		subItems, err := a.d3timelineInner(child, depth+1)
-- 
2.43.0


From 71ca2659d533801afbe3d83397d701b812e82c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:37 +0000
Subject: [PATCH 20/35] fix: traceapp: do not add a millisecond to aggregated
 sums

Items were raised to at least 1 ms before their sum was complete, so
that a label whose first span took no time got 1 ms too many.
---
 traceapp/aggregate.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/traceapp/aggregate.go b/traceapp/aggregate.go
index 0a4c31e..d573052 100644
--- a/traceapp/aggregate.go
+++ b/traceapp/aggregate.go
@@ -56,9 +56,6 @@ func (a *App) aggregate(traces []*appdash.Trace, mode aggMode) ([]*aggItem, erro
 
 		// Perform aggregation.
 		i.Value += value
-		if i.Value == 0 {
-			i.Value = 1 // Must be positive values or else d3pie won't render.
-		}
 	}
 
 	for _, trace := range traces {
@@ -85,6 +82,9 @@ func (a *App) aggregate(traces []*appdash.Trace, mode aggMode) ([]*aggItem, erro
 	// Form an array (d3pie needs a JSON array, not a map).
 	list := make([]*aggItem, 0, len(aggregated))
 	for _, item := range aggregated {
+		if item.Value == 0 {
+			item.Value = 1 // Must be positive values or else d3pie won't render.
+		}
 		list = append(list, item)
 	}
 	return list, nil
-- 
2.43.0


From 53c1018b7111a2885417e4b851da6f925e3ee86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:37 +0000
Subject: [PATCH 21/35] fix: traceapp: aggregate a trace once even if selected
 twice

---
 traceapp/app.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/traceapp/app.go b/traceapp/app.go
index 3c1fd73..37970a6 100644
--- a/traceapp/app.go
+++ b/traceapp/app.go
@@ -265,11 +265,16 @@ func (a *App) serveAggregate(w http.ResponseWriter, r *http.Request) error {
 	selection := q.Get("selection")
 	if len(selection) > 0 {
 		var selected []*appdash.Trace
+		seen := make(map[appdash.ID]bool)
 		for _, idStr := range strings.Split(selection, ",") {
 			var id appdash.ID
 			if id, err = appdash.ParseID(idStr); err != nil {
 				return err
 			}
+			if seen[id] {
+				continue
+			}
+			seen[id] = true
 			for _, t := range traces {
 				if t.Span.ID.Trace == id {
 					selected = append(selected, t)
-- 
2.43.0


From fa3a326945b5fdf6abb1d635606d8250e16aa882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:37 +0000
Subject: [PATCH 22/35] fix: traceapp: show no traces if a show parameter names
 none

A show parameter without valid trace IDs, such as that of the link of a
dashboard row without slowest traces, listed all traces.
---
 traceapp/app.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/traceapp/app.go b/traceapp/app.go
index 37970a6..56b44de 100644
--- a/traceapp/app.go
+++ b/traceapp/app.go
@@ -223,8 +223,9 @@ func (a *App) serveTraces(w http.ResponseWriter, r *http.Request) error {
 	// Parse the query for a comma-separated list of traces that we should only
 	// show (all others are hidden).
 	var showJust []appdash.ID
-	if show := r.URL.Query().Get("show"); len(show) > 0 {
-		for _, idStr := range strings.Split(show, ",") {
+	show, showSome := r.URL.Query()["show"]
+	if showSome {
+		for _, idStr := range strings.Split(show[0], ",") {
 			id, err := appdash.ParseID(idStr)
 			if err == nil {
 				showJust = append(showJust, id)
@@ -232,11 +233,16 @@ func (a *App) serveTraces(w http.ResponseWriter, r *http.Request) error {
 		}
 	}
 
-	traces, err := a.Queryer.Traces(appdash.TracesOpts{
-		TraceIDs: showJust,
-	})
-	if err != nil {
-		return err
+	// Without any trace ID, the Queryer would return all traces.
+	var traces []*appdash.Trace
+	if !showSome || len(showJust) > 0 {
+		var err error
+		traces, err = a.Queryer.Traces(appdash.TracesOpts{
+			TraceIDs: showJust,
+		})
+		if err != nil {
+			return err
+		}
 	}
 
 	return a.renderTemplate(w, r, "traces.html", http.StatusOK, &struct {
-- 
2.43.0


From 0ec72fdbcadbd6e4ffa5d3e02d4c24abd1e5efef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:00 +0000
Subject: [PATCH 23/35] fix: traceapp: validate uploaded traces before storing
 any span

Malformed uploads and permalinks were stored up to the first missing
(null) span, and their sub-spans could be those of another, possibly
already existing trace, which was modified.
---
 traceapp/app.go   |  7 +++++++
 traceapp/trace.go | 26 +++++++++++++++++++++++++-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/traceapp/app.go b/traceapp/app.go
index 56b44de..beea71b 100644
--- a/traceapp/app.go
+++ b/traceapp/app.go
@@ -322,6 +322,13 @@ func (a *App) serveTraceUpload(w http.ResponseWriter, r *http.Request) error {
 
 // uploadTraces uploads literal traces into the storage system for later viewing.
 func (a *App) uploadTraces(traces ...*appdash.Trace) error {
+	// Validate all traces before collecting any of them.
+	for _, trace := range traces {
+		if err := validateTrace(trace); err != nil {
+			return err
+		}
+	}
+
 	// Collect the unmarshaled traces, ignoring any previously existing ones (i.e.
 	// ones that would collide / be merged together).
 	for _, trace := range traces {
diff --git a/traceapp/trace.go b/traceapp/trace.go
index 70bdbc9..4deb2b4 100644
--- a/traceapp/trace.go
+++ b/traceapp/trace.go
@@ -1,6 +1,30 @@
 package traceapp
 
-import "sourcegraph.com/sourcegraph/appdash"
+import (
+	"errors"
+
+	"sourcegraph.com/sourcegraph/appdash"
+)
+
+// errInvalidTrace is returned by validateTrace.
+var errInvalidTrace = errors.New("invalid trace: missing or mismatching span IDs")
+
+// validateTrace reports an error unless the given trace is one whose spans all
+// have IDs and belong to the same trace.
+func validateTrace(t *appdash.Trace) error {
+	if t == nil || t.ID.Trace == 0 || t.ID.Span == 0 {
+		return errInvalidTrace
+	}
+	for _, sub := range t.Sub {
+		if sub != nil && sub.ID.Trace != t.ID.Trace {
+			return errInvalidTrace
+		}
+		if err := validateTrace(sub); err != nil {
+			return err
+		}
+	}
+	return nil
+}
 
 // collectTrace asks the given collector to collect all of the spans and
 // annotations in the given trace recursively. Any errors that occur during
-- 
2.43.0


From 350c43b3adff63b8ec85c4a73c6d05c1745bc1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:10 +0000
Subject: [PATCH 24/35] fix: traceapp: link parentless sub-spans to their own
 pages

In a trace with several parentless spans, those below the top were
linked to the page and profile of the whole trace instead.
---
 traceapp/aggregate.go |  2 +-
 traceapp/app.go       |  8 +++++---
 traceapp/prof.go      | 16 +++++++++-------
 traceapp/vis.go       | 10 +++++-----
 4 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/traceapp/aggregate.go b/traceapp/aggregate.go
index d573052..63ed157 100644
--- a/traceapp/aggregate.go
+++ b/traceapp/aggregate.go
@@ -61,7 +61,7 @@ func (a *App) aggregate(traces []*appdash.Trace, mode aggMode) ([]*aggItem, erro
 	for _, trace := range traces {
 		// Calculate the cumulative time -- which we can already get through the
 		// profile view's calculation method.
-		profiles, childProf, err := a.calcProfile(nil, trace)
+		profiles, childProf, err := a.calcProfile(nil, trace, true)
 		if err != nil {
 			return nil, err
 		}
diff --git a/traceapp/app.go b/traceapp/app.go
index beea71b..484a7aa 100644
--- a/traceapp/app.go
+++ b/traceapp/app.go
@@ -137,7 +137,9 @@ func (a *App) serveTrace(w http.ResponseWriter, r *http.Request) error {
 	}
 
 	// Get sub-span if the Span route var is present.
+	whole := true
 	if spanIDStr := v["Span"]; spanIDStr != "" {
+		whole = false
 		var spanID appdash.ID
 		if spanID, err = appdash.ParseID(spanIDStr); err != nil {
 			return err
@@ -152,13 +154,13 @@ func (a *App) serveTrace(w http.ResponseWriter, r *http.Request) error {
 	// determine the correct trace (or therein sub-trace), we just handle any
 	// JSON profile requests here.
 	if path.Base(r.URL.Path) == "profile" {
-		return a.profile(trace, w)
+		return a.profile(trace, whole, w)
 	}
 
 	// Do not show d3 timeline chart when timeline item fields are invalid.
 	// So we avoid JS code breaking due missing values.
 	var showTimelineChart bool = true
-	visData, err := a.d3timeline(trace)
+	visData, err := a.d3timeline(trace, whole)
 	switch err {
 	case errTimelineItemValidation:
 		showTimelineChart = false
@@ -170,7 +172,7 @@ func (a *App) serveTrace(w http.ResponseWriter, r *http.Request) error {
 
 	// Determine the profile URL.
 	var profile *url.URL
-	if trace.ID.Parent == 0 {
+	if whole && trace.ID.Parent == 0 {
 		profile, err = a.Router.URLToTraceProfile(trace.Span.ID.Trace)
 	} else {
 		profile, err = a.Router.URLToTraceSpanProfile(trace.Span.ID.Trace, trace.Span.ID.Span)
diff --git a/traceapp/prof.go b/traceapp/prof.go
index 3d0ae23..7697446 100644
--- a/traceapp/prof.go
+++ b/traceapp/prof.go
@@ -19,8 +19,9 @@ type profile struct {
 // calcProfile calculates a profile for the given trace and appends it to the
 // given buffer (buf), which is then returned (prof). If an error is returned,
 // all other returned values are nil. The childProf is literally the *profile
-// associated with the given trace (t).
-func (a *App) calcProfile(buf []*profile, t *appdash.Trace) (prof []*profile, childProf *profile, err error) {
+// associated with the given trace (t), which is the complete trace if whole is
+// true, or else a sub-span of it.
+func (a *App) calcProfile(buf []*profile, t *appdash.Trace, whole bool) (prof []*profile, childProf *profile, err error) {
 	// Unmarshal the trace's span events.
 	var events []appdash.Event
 	if err = appdash.UnmarshalEvents(t.Span.Annotations, &events); err != nil {
@@ -29,7 +30,7 @@ func (a *App) calcProfile(buf []*profile, t *appdash.Trace) (prof []*profile, ch
 
 	// Get the proper URL to the trace view.
 	var u *url.URL
-	if t.ID.Parent == 0 {
+	if whole && t.ID.Parent == 0 {
 		u, err = a.URLToTrace(t.ID.Trace)
 		if err != nil {
 			return nil, nil, err
@@ -80,7 +81,7 @@ func (a *App) calcProfile(buf []*profile, t *appdash.Trace) (prof []*profile, ch
 	// Descend recursively into each sub-trace and calculate the profile for
 	// each child span.
 	for _, child := range t.Sub {
-		buf, childProf, err = a.calcProfile(buf, child)
+		buf, childProf, err = a.calcProfile(buf, child, false)
 		if err != nil {
 			return nil, nil, err
 		}
@@ -96,10 +97,11 @@ func (a *App) calcProfile(buf []*profile, t *appdash.Trace) (prof []*profile, ch
 	return buf, p, nil
 }
 
-// profile generates and encodes the given trace as JSON to the given writer.
-func (a *App) profile(t *appdash.Trace, out io.Writer) error {
+// profile generates and encodes the given trace (complete, or a sub-span of it)
+// as JSON to the given writer.
+func (a *App) profile(t *appdash.Trace, whole bool, out io.Writer) error {
 	// Generate the profile.
-	prof, _, err := a.calcProfile(nil, t)
+	prof, _, err := a.calcProfile(nil, t, whole)
 	if err != nil {
 		return err
 	}
diff --git a/traceapp/vis.go b/traceapp/vis.go
index 2f7c257..be89178 100644
--- a/traceapp/vis.go
+++ b/traceapp/vis.go
@@ -45,11 +45,11 @@ type timelineItemTimespan struct {
 	Duration int64  `json:"duration"`
 }
 
-func (a *App) d3timeline(t *appdash.Trace) ([]timelineItem, error) {
-	return a.d3timelineInner(t, 0)
+func (a *App) d3timeline(t *appdash.Trace, whole bool) ([]timelineItem, error) {
+	return a.d3timelineInner(t, whole, 0)
 }
 
-func (a *App) d3timelineInner(t *appdash.Trace, depth int) ([]timelineItem, error) {
+func (a *App) d3timelineInner(t *appdash.Trace, whole bool, depth int) ([]timelineItem, error) {
 	var items []timelineItem
 
 	var events []appdash.Event
@@ -58,7 +58,7 @@ func (a *App) d3timelineInner(t *appdash.Trace, depth int) ([]timelineItem, erro
 	}
 
 	var u *url.URL
-	if t.ID.Parent == 0 {
+	if whole && t.ID.Parent == 0 {
 		var err error
 		u, err = a.URLToTrace(t.ID.Trace)
 		if err != nil {
@@ -139,7 +139,7 @@ func (a *App) d3timelineInner(t *appdash.Trace, depth int) ([]timelineItem, erro
 	}
 
 	for _, child := range t.Sub {
-		subItems, err := a.d3timelineInner(child, depth+1)
+		subItems, err := a.d3timelineInner(child, false, depth+1)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 4a172318e98798f31f6e1f73c51c7b4b95be67a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:08 +0000
Subject: [PATCH 25/35] fix: traceapp: make links and static files work below a
 base path

---
 traceapp/app.go                | 15 +++++++++++----
 traceapp/tmpl/data/layout.html |  4 ++--
 traceapp/tmpl/data/root.html   |  6 +++---
 traceapp/tmpl/data/traces.html |  4 ++--
 traceapp/tmpl/data_vfsdata.go  | 12 ++++++------
 5 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/traceapp/app.go b/traceapp/app.go
index 484a7aa..edd81b3 100644
--- a/traceapp/app.go
+++ b/traceapp/app.go
@@ -68,8 +68,10 @@ func New(r *Router, base *url.URL) (*App, error) {
 	if base.Scheme == "" || base.Host == "" {
 		return nil, fmt.Errorf("appdash: base URL must contain both scheme and host, found %q", base.String())
 	}
-	if base.Path == "" {
-		base.Path = "/"
+	// Templates append relative URLs to it, so it has to end with a slash.
+	if !strings.HasSuffix(base.Path, "/") {
+		base.Path += "/"
+		base.RawPath = ""
 	}
 
 	app := &App{
@@ -89,8 +91,13 @@ func New(r *Router, base *url.URL) (*App, error) {
 	r.r.Get(DashboardDataRoute).Handler(handlerFunc(app.serveDashboardData))
 	r.r.Get(AggregateRoute).Handler(handlerFunc(app.serveAggregate))
 
-	// Static file serving.
-	r.r.Get(StaticRoute).Handler(http.StripPrefix("/static/", http.FileServer(static.Data)))
+	// Static file serving. The path of the route has a prefix if the router is
+	// a subrouter.
+	staticPath := "/static/"
+	if u, err := r.URLTo(StaticRoute); err == nil {
+		staticPath = u.Path
+	}
+	r.r.Get(StaticRoute).Handler(http.StripPrefix(staticPath, http.FileServer(static.Data)))
 
 	return app, nil
 }
diff --git a/traceapp/tmpl/data/layout.html b/traceapp/tmpl/data/layout.html
index bfe87e6..c585182 100644
--- a/traceapp/tmpl/data/layout.html
+++ b/traceapp/tmpl/data/layout.html
@@ -6,7 +6,7 @@
     <title>{{template "Title" $}}</title>
     <meta charset="utf-8">
     <meta name="viewport" content="width=device-width, initial-scale=1">
-    <link rel="icon" type="image/png" href="/static/favicon.png" />
+    <link rel="icon" type="image/png" href="{{.BaseURL}}static/favicon.png" />
     <link href="//netdna.bootstrapcdn.com/bootstrap/3.3.1/css/bootstrap.min.css" rel="stylesheet">
     <link rel="stylesheet" href="//cdnjs.cloudflare.com/ajax/libs/bootstrap-table/1.6.0/bootstrap-table.min.css">
     <link href='//fonts.googleapis.com/css?family=Open+Sans' rel='stylesheet' type='text/css'>
@@ -100,7 +100,7 @@
             <span class="icon-bar"></span>
             <span class="icon-bar"></span>
           </button>
-          <a href="{{.BaseURL}}" class="pull-left"><img id="logo" src="/static/logo_white.png"></a>
+          <a href="{{.BaseURL}}" class="pull-left"><img id="logo" src="{{.BaseURL}}static/logo_white.png"></a>
         </div>
         <div id="navbar" class="collapse navbar-collapse pull-right">
           <ul class="nav navbar-nav">
diff --git a/traceapp/tmpl/data/root.html b/traceapp/tmpl/data/root.html
index 867288a..4081821 100644
--- a/traceapp/tmpl/data/root.html
+++ b/traceapp/tmpl/data/root.html
@@ -29,12 +29,12 @@
 }
 </style>
 
-<img class="red-logo img-responsive center-block" src="/static/logo_red.png"></img>
+<img class="red-logo img-responsive center-block" src="{{.BaseURL}}static/logo_red.png"></img>
 <h3 style="text-align: center;">Application tracing system for Go.</h3>
-<img class="red-spinner img-responsive center-block" src="/static/red_spinner.png"></img>
+<img class="red-spinner img-responsive center-block" src="{{.BaseURL}}static/red_spinner.png"></img>
 
 <div id="big-btn">
-  <a href="/traces" class="btn btn-block btn-lg btn-danger">
+  <a href="{{.BaseURL}}traces" class="btn btn-block btn-lg btn-danger">
     <i class="fa fa-area-chart big-btn"></i> View Traces
   </a>
 </div>
diff --git a/traceapp/tmpl/data/traces.html b/traceapp/tmpl/data/traces.html
index e3bf0cc..954b3c1 100644
--- a/traceapp/tmpl/data/traces.html
+++ b/traceapp/tmpl/data/traces.html
@@ -93,7 +93,7 @@
     });
 
     // Upon completion of the import form, we POST the JSON trace data up to
-    // the "/traces/upload" URL and reload the page to display the new trace.
+    // the "traces/upload" URL and reload the page to display the new trace.
     $("#import-json-menu .action").click(function() {
       // Trim whitespace to ensure the user pasted something (plus, the server
       // doesn't care about whitespace).
@@ -104,7 +104,7 @@
       }
 
       // Upload the trace, refreshing page upon completion.
-      $.post("/traces/upload", data)
+      $.post({{.BaseURL.String}} + "traces/upload", data)
         .done(function() { location.reload() })
         .fail(function(xhr, textStatus, errorThrown) {
           alert("error: " + xhr.responseText);
diff --git a/traceapp/tmpl/data_vfsdata.go b/traceapp/tmpl/data_vfsdata.go
index 345b77f..ab58dd0 100644
--- a/traceapp/tmpl/data_vfsdata.go
+++ b/traceapp/tmpl/data_vfsdata.go
@@ -46,14 +46,14 @@ var Data = func() http.FileSystem {
 		"/layout.html": &_vfsgen_compressedFileInfo{
 			name:              "layout.html",
 			modTime:           mustUnmarshalTextTime("2016-05-31T20:45:42Z"),
-			compressedContent: []byte("\x1f\x8b\x08\x00\x00\x09\x6e\x88\x00\xff\xbc\x5a\x7b\x73\xdb\x36\x12\xff\x3f\x9f\x02\x61\xda\xb1\xdd\x33\x49\xbf\xf2\xb2\x25\xf5\x72\x49\xaf\xc9\xcd\xb5\xce\x34\x6e\x67\xee\x3a\x99\x0e\x44\x82\x22\x6c\x90\xe0\x01\xa0\x65\x55\xf5\x77\xbf\x05\x40\x90\x20\x45\xd9\xea\xb5\x73\xd6\x4c\x44\x02\x8b\xdd\xdf\x3e\xb0\xbb\x80\xb2\x5e\xa7\x24\xa3\x25\x41\xc1\x0f\x97\x97\x57\xc1\xfd\xfd\x93\xc9\xd3\x77\x97\x6f\xaf\xfe\xf5\xf1\x1b\x94\xab\x82\xcd\x9e\x4c\xec\x17\x42\x93\x9c\xe0\x54\x3f\xc0\xe3\x1c\x4b\x82\x72\x41\xb2\x69\xb0\x5e\x47\x7f\x83\xb7\x1f\x7f\xf8\xe7\xfd\x7d\xd0\x4c\x2b\xaa\x18\x99\xad\xd7\x8a\x14\x15\xc3\x0a\xb8\x5f\xe9\x91\x00\x7d\x71\x7f\x3f\x89\xed\xac\xa5\x2c\x88\xc2\x28\xc9\xb1\x90\x44\x4d\x83\x5a\x65\xe1\xab\xc0\x9f\x2a\x71\x41\xa6\xc1\x2d\x25\xcb\x8a\x0b\x15\xa0\x84\x97\x8a\x94\x40\xba\xa4\xa9\xca\xa7\x29\xb9\xa5\x09\x09\xcd\xcb\x21\xa2\x25\x55\x14\xb3\x50\x26\x98\x91\xe9\xb1\x63\xc4\x68\x79\x83\x04\x61\xd3\x80\xc2\xf2\x00\xa9\x55\x05\x3c\x69\x81\x17\x24\xae\xca\x45\xd0\x28\x12\x4b\x85\x15\x4d\xe2\x0c\xdf\x6a\xba\xc8\x4c\xc5\x3e\x8f\x86\x2e\x2e\x89\x4a\x4b\x1c\xcd\x39\x57\x52\x09\x5c\x25\x69\x19\x25\xbc\x88\xdb\x81\xf8\x34\x3a\x8d\x8e\xe3\x44\xca\x6e\x2c\x2a\x28\x50\x49\x19\x58\x28\x52\xad\x18\x91\x39\x21\x6a\x13\xa6\x37\xd7\xca\x04\x19\xd7\x32\x4a\x18\xaf\xd3\x8c\x61\x41\x8c\x40\x7c\x8d\xef\x62\x46\xe7\x9e\x98\x50\xe1\x39\x23\xf1\x71\xf4\x22\x3a\x1a\x8e\xb6\x10\x36\x94\xda\xcb\x95\xaa\xce\xe3\x38\x03\xf3\xca\x68\xc1\xf9\x82\x11\x5c\x51\x69\xa4\xc0\x8a\xaf\x33\x5c\x50\xb6\x9a\x5e\x56\xa4\xfc\xcb\x27\x5c\xca\x3d\x83\x74\xaf\x43\xba\x67\xcd\xba\xa7\xc8\x9d\xd2\x2b\xf6\x76\xd2\xaa\xc0\x77\xda\x78\x1b\x96\xd4\x38\x42\xbc\x24\x92\x17\x24\x3e\x03\x63\x1e\x19\x63\xfa\xc3\x43\x65\x0c\x7b\xfb\x6c\x22\x17\xad\xed\x33\x42\x15\x97\x10\x17\xbc\x3c\xd7\x38\xc0\xc5\xb7\xe4\xc2\x4d\x01\x8f\x30\x27\x74\x91\xab\x73\x74\x7c\x74\xf4\x65\x33\x71\x6f\xbf\xe6\x3c\x5d\x79\x6c\x70\x9a\xd2\x72\x11\x2a\x5e\x9d\xa3\xe7\x47\xd5\x5d\xcb\x65\x8e\x93\x9b\x85\xe0\x75\x99\x86\x09\x67\x5c\x9c\xa3\x67\xd9\x89\xfe\xb4\x14\x6e\xf8\xd4\xfc\xb5\xc3\x46\x1f\x6b\xda\x73\xb4\xa7\x8d\x8b\x8c\x71\x0f\x91\x84\xaf\x50\x12\x41\xb3\x8b\x27\x8e\x3a\xfe\x0a\x7d\x87\xc5\x82\x96\x00\x4c\x29\x5e\xa0\xf9\x0a\x38\x70\x45\x04\xb2\x3a\xa0\xaf\xe2\x56\x31\x43\x18\x5a\xc2\x73\xf4\xa2\x83\xdb\xe8\x16\xa5\x47\x68\x3d\x86\x7c\x3e\x9f\x5f\x74\x44\xc7\xe3\x44\x49\x32\x7f\x39\x7f\xe9\xd1\x9d\x6c\xa3\xc3\x2f\xb1\x4f\x77\xba\x8d\xee\x35\xfc\x79\x74\x67\xdb\xe8\x5e\x9d\xbc\x3a\xf1\xe8\x9e\x6f\xa3\x7b\xf9\xe2\xe5\x0b\x8f\xee\xc5\x36\xba\xb3\xec\x2c\xf3\xe8\x5e\x6e\xa3\x3b\x7d\x7d\xea\xe3\x7b\xb5\x8d\xee\x04\x9f\x60\x8f\xee\xf5\x36\xba\x63\xf8\xf8\x76\xde\xe2\x8d\x24\x39\x22\x47\x44\x13\x3e\x71\x31\xf0\x3d\xe4\xa7\x05\xd6\x01\x0d\x0b\x84\x0d\x2d\xd9\xba\x3e\x2a\xf1\x2d\x0c\x87\xb4\xbc\x25\x90\x54\xbb\xf0\x1d\x61\x3e\x88\xc6\x39\x17\x29\x81\xf1\x92\x97\xa4\x0d\x96\x6d\x62\xcd\xbe\x7e\x44\xb6\x7b\x87\xaf\x19\xa3\x33\xdc\x81\x19\xdd\x26\xf7\xbb\x71\x39\xcf\x39\x4c\x1c\x3e\x4e\x97\xf1\xa4\x96\x9b\x32\xd3\x34\xdd\x5d\x60\x84\x13\x9d\x30\x66\xf8\x61\x79\x2d\xd9\x2e\xe0\x3a\xe2\x71\x84\x73\x06\xae\xda\x39\xb9\x34\x4a\x3c\x63\x7c\xc1\x3b\x56\xa6\x22\x9e\x23\x5c\x2b\xde\x72\x72\x89\xee\xcc\xcf\x5d\x36\x51\x40\x42\xdb\x18\x0b\x45\x93\x17\x49\x31\x88\x86\x08\xea\x63\x68\x15\xea\x24\x9a\x5c\x26\xe9\xaf\xe4\x1c\x9d\xfa\x02\x1e\xc8\xbe\x26\x93\x86\x67\x1e\x71\xc6\x38\x06\x91\x8c\x64\xea\x62\x98\x77\x1b\x38\xd1\xe9\x26\x9e\x26\x0b\x8e\x64\x7c\x3c\x97\x9c\xd5\x8a\x78\x41\x6e\x33\xe2\xd1\xc5\xc0\x54\x5e\xfa\x37\xf1\xfe\x89\x28\xa4\x72\x82\x32\x7a\x47\x52\x97\x60\x79\x66\xc7\x5c\xd6\x15\xc4\xcb\xb9\xce\xbe\x2f\x1e\xab\x0d\xcf\xf5\xa7\xb3\x02\x54\xcc\x10\x33\xba\x00\xb8\x09\xf4\x36\x44\x0c\xc2\xb3\x91\xe6\x6d\x1f\xb3\x24\x25\x09\x17\xd8\xaa\x09\xec\x89\x80\x2d\x49\x7a\x4b\x27\xb1\x57\x14\x27\x32\x11\xb4\x52\x48\x8a\xc4\xf4\x13\x3c\x25\xd1\xf5\x7f\x6a\x22\x56\xa6\xe2\xda\xc7\xf0\x24\x3a\x86\xcf\x35\x54\x55\x58\x6c\x16\x8c\xae\xde\xb5\x03\xba\x1e\x36\x40\x8f\x72\xfe\xd3\xfa\x9c\x3f\x2a\x29\x3d\x05\x1d\xce\xa2\x33\x78\x78\x8c\x97\xdf\x02\x37\x4d\xe4\x35\xc5\x79\x8d\xcb\x05\xac\x0e\x15\x2d\x88\xf6\x8d\xff\xfc\x3f\xb0\xbc\x11\x54\xde\xc4\x59\x2d\x89\xf9\x67\x17\x25\x47\xb8\xfc\x4a\x04\x4f\x18\xad\xe6\x1c\x8b\x74\xf0\xf6\x6f\x78\x7b\xeb\xde\x46\xf9\x4f\x62\x77\x08\x98\xe8\xe6\xa8\x11\x09\xa9\x00\x25\x0c\x4b\x39\x0d\x9a\xac\x30\xc8\x7e\xcd\xab\xd9\x4a\xba\x7f\x82\x1e\x98\x43\x87\xae\xa9\x9b\x9a\xd2\x74\x71\xc0\x2c\xa5\x2d\x33\xdd\xec\x63\x30\x96\x68\x67\xfb\xf3\x0d\x5b\x0d\xa9\x47\xa3\xd1\xd5\xb0\xcd\xcb\xa6\xd5\xb7\x2f\xc1\x60\x99\xe2\x0b\xe8\x72\x75\xd2\x65\xb8\x92\x24\x0d\x50\x8a\x15\x6e\x86\xb5\x70\x3b\xee\x86\x21\x27\xea\x23\xca\x33\xbb\x3a\x40\x58\x50\x1c\x92\xbb\x0a\xc3\xd6\x4b\xa7\x41\x86\x99\xa6\x35\xa3\x1a\x37\x28\xd8\x8a\xea\x41\xd3\x2e\x82\x45\x0e\x8c\x14\x21\x2f\xd9\x2a\x98\x5d\x59\x38\x9d\x49\xc0\xee\x40\xf7\xc0\x52\x7d\x4a\x09\x0d\xfb\xff\x17\xe9\x24\xb6\xa6\xec\x8d\xe1\xb1\x83\xa0\xe3\x56\xd5\x8c\x85\x3a\x9d\x03\x3b\x5a\x2c\x10\x05\x53\xe9\x4a\x15\x34\xbb\xb0\x89\x4a\x3d\xf4\xcb\x32\xa7\x8a\x98\x63\x17\x88\xc6\x9e\xcb\x63\xf0\xf9\x20\x02\x34\x1f\xe7\x89\x36\x5a\xac\xc3\x5c\xb4\xb5\xef\x06\x83\xa9\x1e\xfd\x18\xa9\x99\x17\x11\xa8\x2b\xd0\x40\xd5\x33\xcf\x7a\x4d\x33\x14\xbd\xc7\xb7\xe4\x1d\x96\xb9\xd9\x1c\xf7\xf7\x3d\x0a\x60\xf6\x34\x0c\xd1\x95\xc0\x09\x91\x28\x15\xbc\x4a\xf9\xb2\x44\x05\x29\x6b\x14\x86\xb3\x21\x2d\xa3\x4e\xb0\x23\x0d\x86\x34\xbe\x61\x9f\x05\x43\xf2\x26\x48\x07\x11\xdb\x32\x6b\x76\x97\x0b\xfb\xd1\x48\x05\x77\x38\xae\x19\x46\x19\x0e\x21\x03\x42\xe4\xc2\x49\x5c\xa1\xae\xbc\x6b\x4f\xd0\x99\x53\xac\x17\x27\x09\x2c\x50\x6d\x90\xf4\x1c\x36\x66\xe2\x16\xba\x36\x8a\x43\x68\x9e\x47\xd6\x19\x1b\xcd\x5a\x03\xa4\xce\xec\x70\x76\xd7\x77\x07\xb0\x6b\x72\xbe\x94\xa6\x14\x77\x73\xb3\xd6\x3b\x1a\xcc\x04\xb2\xf8\xe3\x9c\x95\x51\x6c\xc0\x16\x33\x86\xec\xc4\x21\x22\x77\x09\xab\x75\xfb\x81\xf0\x62\x21\x08\xec\x4c\x68\x06\xa0\x3f\x86\xbc\xf8\x06\xc8\xac\x61\x1e\x90\x37\x89\x6b\xb6\x31\xbc\x49\xbb\x5e\x13\x70\xca\x66\x54\x8d\xf1\xdc\x15\xfc\xa8\x61\x7f\xbf\xd7\x37\xe5\x6f\xba\x7a\x54\xa1\x52\xef\x92\x27\x8f\xa8\xd3\x2a\xa3\x2f\x20\xe4\x79\x1c\x2f\x78\xca\x93\x88\x8b\x45\x2c\x79\x2d\x12\xb2\x80\xaa\x9e\x9b\xd2\xec\xbd\xc7\xb8\xaa\xb4\xe3\x41\xf7\x26\x2d\xff\x02\x4d\x73\x79\x33\xa2\xf2\x50\x61\x68\x15\x6e\x36\x55\x7d\xc7\x93\xa1\xa2\x1b\x6a\x6e\x2a\xb9\x93\x3e\x54\xe5\xf5\xfc\x4f\x54\xc0\x32\xdc\x54\xe1\x5b\xaa\xde\xd7\xf3\xdf\xab\x44\x3f\x3e\x6d\xa6\xd5\xb9\x2c\xd6\x07\x96\x2e\x85\x76\x49\xcc\x4b\xc6\x93\x58\x9f\x66\xac\x8b\x1f\x2e\xdb\xfe\x4d\xe0\x77\x30\x65\x2e\x02\x9f\x78\xec\xec\x73\xd3\xe8\x3a\x75\xcd\xdb\xee\x8d\x41\xe5\x66\x4d\x77\x5c\x40\xd3\x0f\x39\xe1\x8d\xb5\x33\xa2\xb0\x33\x4a\xc4\x2b\x52\x86\xd6\x0d\xa8\x12\xfc\x9a\x24\x0a\x25\xb0\x03\xf4\xa6\x9e\xaf\x36\x9d\x37\x0c\xc1\x60\xf6\xa9\x1b\xd1\xb6\x8d\x26\x71\x35\x6a\x19\x0b\xde\x29\xe6\x37\x68\x08\xed\x67\x75\x99\xe8\x0a\xbf\x7f\xd0\xb5\xf4\x28\x8e\xd1\xdf\xa1\x8f\xf1\xcf\x17\xb4\x74\x57\x9a\x6c\x15\xb5\x84\x5f\xec\x07\xee\x48\x50\x05\x07\x51\x4e\x53\xb2\x7f\x10\x65\xb0\xf6\x03\x70\xec\xae\x8b\xd0\x2d\x34\x62\x39\x2d\x95\x44\x53\xf4\xb3\xe7\xf3\x3d\x67\x14\x30\xc1\x2d\xac\x06\xd3\xa0\x6f\x39\x7a\x7f\x75\xf5\x11\x15\x34\x4d\x19\x59\x42\x5a\xd0\xd2\x35\x16\x30\xca\x20\x46\xff\xc8\x8e\x8d\xf5\x2a\x93\x9f\x82\xd9\xc6\x90\xb6\x28\x1c\xf7\x92\x1b\xbc\x20\x4f\xf7\x0e\x7d\xc8\x1f\xc0\x51\xe0\xc0\x39\x41\xd0\xfa\xa6\x28\x13\xbc\x78\x1c\xd9\x03\x78\xb6\xe1\xfb\x6b\x81\x25\x58\x36\x8e\x94\x20\x24\xae\x56\x2a\xd7\xbd\xe9\x12\xf6\x1c\x98\xe3\xa3\x79\x45\x40\xca\x68\x62\x7a\x34\x93\xfa\xe1\x1c\xcb\x9f\xa2\x37\xf6\x5a\x72\x80\xfb\x3d\xd8\xff\x1c\x41\x53\x9d\xdc\x58\x6b\xc2\x31\x85\x97\x8b\xd9\x5b\x5e\xad\x10\x96\xe8\x1f\x9f\x2e\xbf\xd7\xc7\x34\x33\x88\x5c\xd7\xca\xa1\xee\xe8\xfb\x6e\x70\x8c\x31\x8c\xa3\x84\x18\x4e\x91\xcc\x8d\x77\x14\xd2\xa8\xd0\x0a\x74\x00\x73\x50\x48\xb7\x72\x54\xf6\x95\x27\xf5\x27\x22\xe6\x1c\xb6\xf3\x3b\x68\x1b\xd0\x4f\x94\x2c\x3b\xd1\x70\x70\x42\x5d\x05\x69\xce\xb9\xba\xbd\x00\xd9\x92\x27\xd4\xec\x11\x23\x51\x4f\x24\xb5\x10\x70\x54\x45\xba\xf6\x47\x8f\x49\xfd\x28\x78\x46\xa1\xb5\xdd\x14\xc8\x08\x04\x27\x68\x80\x24\x21\xad\xae\xd7\xb5\x54\x88\xd1\x1b\x13\x81\x58\x07\xa9\x5e\x2d\x1e\x30\xac\xf6\x49\xb9\x32\x60\xd0\xbe\x81\xa7\x4f\xda\x80\x57\xc0\x06\x87\x43\x18\x23\xf2\x40\x1b\xb5\xc4\x42\xf0\xa5\x66\x0b\x2b\xc0\x80\xc6\x9a\x44\xdb\x52\x22\xfd\x6b\x43\xa8\xf5\x1d\x95\x73\x59\xf6\xbc\xe7\xca\xbe\xd3\xa5\x82\x80\x35\x7a\xe8\x18\x95\x84\xe9\xbc\xa2\x99\x37\x5e\x2c\x6a\xa6\x68\x05\x16\xb0\x85\xd9\x79\x73\x54\xd2\x87\xa2\x71\xbc\xf1\xb7\xb5\x88\x89\x76\x5c\x72\x80\x20\x50\x9b\xd1\x4a\xe8\x9d\x4b\x98\x85\xc4\x95\x68\x33\xe8\x26\xc5\x01\x6c\xb8\x8c\x46\x17\x7f\x5c\x97\xa7\x7b\x2d\xb0\xcf\x5e\x42\x81\x14\x55\x42\x6e\xd5\x40\xc1\xb4\xaa\x16\xa5\xed\xc1\xf4\xa0\xc9\x34\x2e\x67\xd8\xac\x03\xd6\xc6\x2b\x78\xc7\x30\x09\x2a\x03\x7e\xd8\xbf\xa4\xf4\xd9\x55\x82\xdc\x52\x5e\x4b\xb6\x42\x29\x95\x50\x21\x56\x24\x8d\x7a\x09\x4c\x6f\xf7\xf7\x2e\x89\x7d\xbe\xe8\xcd\x41\xba\xb7\x60\xa6\xa8\x84\x1e\xbf\x9b\x74\x09\xb6\x85\xbb\x4f\xfd\x54\x6b\x57\x97\xb0\xec\x3b\xac\xf2\x28\x63\x9c\x8b\xfd\x7d\xf3\x2c\xc0\x6d\xbc\x80\xc4\xfc\x15\x3a\x26\xaf\x0f\xd0\x97\x56\x97\x88\x91\x72\xa1\x72\x3f\xbb\xda\x8c\x4d\x05\x04\x2b\x1c\x5b\xec\x45\xcc\xd7\xe8\x93\xd2\xad\x94\xd9\x27\x18\xa4\x2f\x91\x65\x08\xf8\x8a\x39\x38\x0f\x8c\x53\x46\x1e\x0b\x9a\xed\x53\x34\xb5\xf0\xd1\x6f\xbf\x21\xf3\xe2\xd4\xea\x43\x46\x8d\xc9\x3b\x9d\xca\x83\x0b\x6f\xfe\x7e\x00\xed\x2d\x23\x3d\xf3\x59\x6f\x2c\x01\x80\x0e\x7d\xa8\x87\x19\xc8\x1c\x60\x69\xa9\x1b\x7d\xd1\x6c\xda\xd7\x7f\x80\x68\x9b\x73\x36\xd1\xbc\x23\x60\xa3\x42\xff\xd0\x48\xb3\x36\x44\x40\x5d\x1d\x18\x3a\x28\x6c\x5a\xc7\x0c\x8a\x71\xba\xf2\x51\x7d\x11\x11\x9c\xe4\x1d\xb2\xc3\xd6\xb9\xfb\x75\xa9\x47\xa1\x47\x1f\xc2\x02\x4d\x88\x36\x24\x1d\x4e\x18\x28\x3f\x7a\x92\x0e\x61\x87\xad\xba\x18\xee\x39\x2b\x1a\x2c\x7d\xd8\xfc\xed\x75\x9d\x7d\xee\x47\x8a\x17\xa8\xd4\x5f\xd4\xd9\xbb\xaa\x65\x0e\x41\xea\x4f\x36\xf2\xbc\x05\x9e\x51\xdb\x08\x6f\xb6\x8d\x41\x74\xd0\x4e\xfb\x6a\x0f\xfa\x05\xdd\x28\x5c\xd6\x6a\xbc\x09\xb1\xf4\x50\xec\x24\x34\x16\xaa\x60\xfb\xc6\xfb\x3f\x77\x3a\x43\xcc\x1c\x7c\xf6\xbb\x8d\xbe\xce\x9b\xb6\x90\x44\x7d\xd0\x77\x9a\xb7\x98\xed\x7b\x58\x0f\xf5\x7d\xeb\xd1\x51\xbb\xe4\xfe\xc0\x31\xeb\x5f\x37\xd9\x5b\xa6\x49\x6c\x7f\x84\x6e\x4f\x15\xdd\xcf\xd6\x36\xd3\x7d\x63\x12\x6d\x60\x9a\x4a\x73\x14\xa7\x66\x38\x74\x09\xb8\x3b\x88\xb7\xb7\x07\xeb\x75\xf4\xe1\x9d\x77\x53\xd1\xde\xf7\x34\x2d\x9c\x39\xd0\x83\xde\x6f\x20\x50\xda\xfe\x17\x5a\x54\x51\x34\x87\x57\xfd\x38\xda\x9d\xea\x89\x50\xdf\xf9\x56\x5e\x7b\xba\x5e\x9b\xa4\x10\x99\x1f\xc2\x7b\x07\xbd\x09\xc3\x73\xc2\xa0\xe7\x13\x1a\x44\x01\x58\x55\x0b\xca\x1c\xed\x82\x19\x60\xd5\x3f\x9c\x1b\x42\x9f\xa5\xb5\x46\xcb\x48\x37\xbe\xfa\x40\x67\xae\xfd\x81\x15\x94\x1c\x05\x40\x79\x96\x05\x3d\x6c\xcd\xfd\x14\x72\xf4\xfa\x38\xbe\x84\xc9\xe7\x5a\x92\x85\xf9\x13\x66\x35\xc0\x34\x82\x1b\x39\x93\xd8\xd1\x6f\xe9\x78\x45\xe1\xfe\x77\x80\x88\x3d\x23\xbe\xb1\x81\x0a\x19\x49\x97\x2b\xd6\x94\x21\xd9\xd9\xd4\x33\xdd\x5c\xe9\xbb\x0d\xce\xfc\x4b\x33\x07\xc9\xf2\xf1\xf5\x6d\x0a\x5a\xb7\x16\xe9\xf5\x10\x19\x18\x0a\xae\x77\xed\x83\xb0\x59\x1a\xf4\xaf\x03\x9d\x55\xfb\x57\x5a\x7d\xa3\xee\x2e\x22\x31\xca\x0d\x44\xec\x76\xa3\xe8\x22\x71\x66\x0d\xd4\x47\xe4\xdb\x38\xb7\x76\x6d\x86\x1c\xd2\xff\x06\x00\x00\xff\xff\x74\x15\xd6\xfd\xc3\x21\x00\x00"),
-			uncompressedSize:  8643,
+			compressedContent: []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\x03\xbd\x5a\x7b\x73\xdb\x36\x12\xff\xdf\x9f\x02\x61\xd2\xb1\x9d\x33\x49\xf9\x11\x3b\xb1\x25\xf5\x72\x71\xaf\xc9\xcd\xa5\xce\x34\x6e\x66\xee\x3a\x99\x0e\x44\x82\x22\x6c\x90\xe0\x01\xa0\x65\x55\xf5\x77\xbf\x05\xc0\x07\x48\x51\xb6\x7a\xed\x9c\x35\x13\x91\xc0\x3e\x7e\xfb\xc0\x62\x01\x65\xb5\x8a\x49\x42\x73\x82\xbc\x1f\xaf\xae\xae\xbd\x87\x87\x9d\xf1\xb3\xcb\xab\x77\xd7\xff\xfa\xf4\x1d\x4a\x55\xc6\xa6\x3b\x63\xfb\x85\xd0\x38\x25\x38\xd6\x0f\xf0\x38\xc3\x92\xa0\x54\x90\x64\xe2\xad\x56\xc1\xdf\xe0\xed\xa7\x1f\xff\xf9\xf0\xe0\x55\xd3\x8a\x2a\x46\xa6\xab\x95\x22\x59\xc1\xb0\x02\xe9\xd7\x7a\xc4\x43\x2f\x1e\x1e\xc6\xa1\x9d\xb5\x94\x19\x51\x18\x45\x29\x16\x92\xa8\x89\x57\xaa\xc4\x7f\xed\xb9\x53\x39\xce\xc8\xc4\xbb\xa3\x64\x51\x70\xa1\x3c\x14\xf1\x5c\x91\x1c\x48\x17\x34\x56\xe9\x24\x26\x77\x34\x22\xbe\x79\x39\x40\x34\xa7\x8a\x62\xe6\xcb\x08\x33\x32\x39\xac\x05\x31\x9a\xdf\x22\x41\xd8\xc4\xa3\xc0\xee\x21\xb5\x2c\x40\x26\xcd\xf0\x9c\x84\x45\x3e\xf7\x06\x0c\x91\x0a\x2b\x1a\x85\x09\xbe\xd3\x2c\x81\xa1\x0a\x5d\x71\x96\x25\x0c\x73\xa2\xe2\x1c\x07\x33\xce\x95\x54\x02\x17\x51\x9c\x07\x11\xcf\xc2\x66\x20\x3c\x0e\x8e\x83\xc3\x30\x92\xb2\x1d\x0b\x32\x0a\x54\x52\x7a\x16\x95\x54\x4b\x46\x64\x4a\x88\x5a\x47\xec\xcc\x35\x3a\x41\xc7\x8d\x0c\x22\xc6\xcb\x38\x61\x58\x10\xa3\x10\xdf\xe0\xfb\x90\xd1\x99\xa3\xc6\x57\x78\xc6\x48\x78\x18\x9c\x06\xa3\xfe\x68\x03\x61\xcd\xa8\xdd\x30\x4c\xc0\xc9\x32\x98\x73\x3e\x67\x04\x17\x54\x1a\x05\x40\xfc\x6d\x82\x33\xca\x96\x93\xab\x82\xe4\x7f\xf9\x8c\x73\xb9\x6b\x40\xee\xb6\x20\x77\xad\x73\x77\x15\xb9\x57\x9a\x63\x77\x2b\x83\x32\x7c\xaf\xfd\xb6\xe6\x44\x8d\xc3\xc7\x0b\x22\x79\x46\xc2\x13\xf0\xe3\xc8\xf8\xd1\x1d\xee\xdb\x61\xc4\xdb\x67\x93\xbf\x68\x65\x9f\x11\x2a\xb8\x84\xec\xe0\xf9\xb9\xc6\x01\xd1\xbd\x23\x17\xf5\x14\xc8\xf0\x53\x42\xe7\xa9\x3a\x47\x87\xa3\xd1\x37\xd5\xc4\x83\xfd\x9a\xf1\x78\xe9\x88\xc1\x71\x4c\xf3\xb9\xaf\x78\x71\x8e\x5e\x8d\x8a\xfb\x46\xca\x0c\x47\xb7\x73\xc1\xcb\x3c\xf6\x23\xce\xb8\x38\x47\xcf\x93\x23\xfd\x69\x28\xea\xe1\x63\xf3\xd7\x0c\x1b\x7b\xac\x6b\xcf\xd1\xae\x76\x2e\x32\xce\x3d\x40\x12\xbe\x7c\x49\x04\x4d\x2e\x76\x6a\xea\xf0\x25\xfa\x88\xc5\x9c\xe6\x00\x4c\x29\x9e\xa1\xd9\x12\x24\x70\x45\x04\xb2\x36\xa0\x97\x61\x63\x98\x21\xf4\x2d\xe1\x39\x3a\x6d\xe1\x56\xb6\x05\xf1\x08\xad\x86\x90\xcf\x66\xb3\x8b\x96\xe8\x70\x98\x28\x8a\x66\x67\xb3\x33\x87\xee\x68\x13\x1d\x3e\xc3\x2e\xdd\xf1\x26\xba\x37\xf0\xe7\xd0\x9d\x6c\xa2\x7b\x7d\xf4\xfa\xc8\xa1\x7b\xb5\x89\xee\xec\xf4\xec\xd4\xa1\x3b\xdd\x44\x77\x92\x9c\x24\x0e\xdd\xd9\x26\xba\xe3\x37\xc7\x2e\xbe\xd7\x9b\xe8\x8e\xf0\x11\x76\xe8\xde\x6c\xa2\x3b\x84\x8f\xeb\xe7\xd1\x26\xc2\x11\x19\x11\x4d\xb8\x53\xe7\xc0\x0f\x50\x9a\xe6\x58\x27\x34\x30\x08\x9b\x5a\xb2\x09\x7d\x90\xe3\x3b\x18\xf6\x69\x7e\x47\xa0\xb4\xb6\xe9\x3b\x20\xbc\x97\x8d\x33\x2e\x62\x02\xe3\x39\xcf\x49\x93\x2c\x9b\xd4\x9a\x75\xfd\x84\xee\xfa\x1d\xbe\xa6\x8c\x4e\x71\x0b\x66\x70\x99\x3c\x6c\x27\xe5\x3c\xe5\x30\x71\xf0\x34\x5d\xc2\xa3\x52\xae\xeb\x8c\xe3\x78\x7b\x85\x01\x8e\x74\xc1\x98\xe2\x83\xed\xc8\xb6\x01\xd7\x12\x0f\x23\x9c\x31\x08\xd5\xd6\xc5\xa5\x32\xe2\x39\xe3\x73\xde\x8a\x32\xfb\xe2\x39\xc2\xa5\xe2\x8d\xa4\xba\xd0\x9d\xb8\xb5\xcb\x16\x0a\x28\x68\x6b\x63\xbe\xa8\xea\x22\xc9\x7a\xd9\x10\xc0\xd6\xe8\x5b\x83\x5a\x8d\xa6\x96\x49\xfa\x2b\x39\x47\xc7\xae\x82\x47\xaa\xaf\xa9\xa4\xfe\x89\x43\x9c\x30\x8e\x41\x25\x23\x89\xba\xe8\xd7\xdd\x0a\x4e\x70\xbc\x8e\xa7\xaa\x82\x03\x15\x1f\xcf\x24\x67\xa5\x22\x4e\x92\xdb\x8a\x38\xba\xe8\xb9\xca\x29\xff\x26\xdf\x3f\x13\x85\x54\x4a\x50\x42\xef\x49\x5c\x17\x58\x9e\xd8\xb1\xba\xea\x0a\xe2\xd4\xdc\xda\xbf\xa7\x4f\xed\x0d\xaf\xf4\xa7\xf5\x02\xec\x98\x3e\x66\x74\x0e\x70\x23\xe8\x70\x88\xe8\xa5\x67\xa5\xcd\x59\x3e\x86\x25\x26\x11\x17\xd8\x9a\x09\xe2\x89\x80\x25\x49\x3a\xac\xe3\xd0\xd9\x14\xc7\x32\x12\xb4\x50\x48\x8a\xc8\xb4\x12\x3c\x26\xc1\xcd\x7f\x4a\x22\x96\x66\xc7\xb5\x8f\xfe\x51\x70\x08\x9f\x1b\xd8\x55\x81\xd9\x30\x0c\x72\x6f\xdb\xfc\xdc\xf4\x7b\x9f\x27\x25\xff\x69\x2d\xce\x1f\xd5\x14\x1f\x83\x0d\x27\xc1\x09\x3c\x3c\x25\x6b\xa0\x7f\xbc\xa1\x38\x2d\x71\x3e\x07\x6e\x5f\xd1\x8c\xe8\xd8\xb8\xcf\xff\x83\xc8\x5b\x41\xe5\x6d\x98\x94\x92\x98\x7f\xb6\x31\x72\x40\xca\xaf\x44\xf0\x88\xd1\x62\xc6\xb1\x88\x7b\x6f\xff\x86\xb7\x77\xf5\xdb\xa0\xfc\x71\x58\x1f\x05\xc6\xba\x39\xaa\x54\x42\x29\x40\x11\xc3\x52\x4e\xbc\xaa\x2a\xf4\xaa\x5f\xf5\x6a\x96\x92\xee\x9f\xa0\xfd\xe5\xd0\xa7\x6b\xea\x6a\x4f\xa9\xba\x38\x10\x16\xd3\x46\x98\x6e\xf9\x31\x38\x4b\x34\xb3\xdd\xf9\x4a\xac\x86\xd4\xa1\xd1\xe8\x4a\x58\xe6\x79\xd5\xf0\xdb\x17\xaf\xc7\xa6\xf8\x1c\xba\x5c\x5d\x74\x19\x2e\x24\x89\x3d\x14\x63\x85\xab\x61\xad\xdc\x8e\xd7\xc3\x50\x13\xf5\x41\xe5\xb9\xe5\xf6\x10\x16\x14\xfb\xe4\xbe\xc0\xb0\xf4\xe2\x89\x97\x60\xa6\x69\xcd\xa8\xc6\x0d\x06\x36\xaa\x3a\xd0\x74\x88\x80\xa9\x06\x23\x85\xcf\x73\xb6\xf4\xa6\xd7\x16\x4e\xeb\x12\xf0\x3b\xd0\x3d\xc2\xaa\x0f\x28\xbe\x11\xff\xff\x22\x1d\x87\xd6\x95\x9d\x31\x3c\x74\x1c\xac\xa5\x15\x25\x63\xbe\x2e\xe7\x20\x8e\x66\x73\x44\xc1\x55\x7a\xa7\xf2\x36\x26\xa8\x9e\xfd\x65\x91\x52\x45\xcc\xe1\x0b\x50\x60\x27\xfa\x21\x84\xbf\x97\x0c\x5a\x64\x1d\x94\x26\x71\x6c\xec\xea\xc4\x6b\xde\x0d\x1c\xb3\x91\x74\xd3\xa5\x64\x4e\x72\xa0\x76\xaf\x06\xaa\x8e\xa7\x56\x2b\x9a\xa0\xe0\x3d\xbe\x23\x97\x58\xa6\x66\x9d\x3c\x3c\x74\x28\x40\xd8\x33\xdf\x47\xd7\x02\x47\x44\xa2\x58\xf0\x22\xe6\x8b\x1c\x65\x24\x2f\x91\xef\x4f\xfb\xb4\x8c\xd6\x8a\x6b\x52\xaf\x4f\xe3\xfa\xf8\xb9\xd7\x27\xaf\xf2\xb5\x97\xbc\x8d\xb0\x6a\xa1\xd5\x2b\x60\x30\x69\x21\x32\xb5\xd4\x04\xa3\x04\xfb\x50\x0c\x21\x89\xe1\x68\xae\x50\xbb\xd3\xeb\x48\xd0\x69\x6d\x58\x27\x65\x22\x60\x50\x4d\xbe\x74\x02\x36\xe4\xe2\x06\xba\x76\x4a\x8d\xd0\x3c\x0f\xf0\x19\x1f\x4d\x1b\x07\xc4\xb5\xdb\xe1\x30\xaf\x2f\x13\x60\x01\xa5\x7c\x21\xcd\xae\xdc\xce\x4d\x9b\xe8\x68\x30\x63\x28\xe8\x4f\x4b\x56\xc6\xb0\x9e\x58\xcc\x18\xb2\x13\x07\x88\xdc\x47\xac\xd4\x9d\x08\xc2\xf3\xb9\x20\xb0\x48\xa1\x2f\x80\x56\x19\x4a\xe4\x5b\x20\xb3\x8e\x79\x44\xdf\x38\x2c\xd9\xda\xf0\x3a\xed\x6a\x45\x20\x28\xeb\x59\x35\x24\x73\x5b\xf0\x83\x8e\xfd\xfd\x51\x5f\xd7\xbf\x1e\xea\x41\x83\x72\xbd\x4a\x76\x9e\x30\xa7\x31\x26\x55\xaa\x90\xe7\x61\x38\xe7\x31\x8f\x02\x2e\xe6\xa1\xe4\xa5\x88\xc8\x1c\x36\xf8\xd4\xec\xd2\xce\x7b\x88\x8b\x42\x07\x1e\x6c\xaf\x2a\xf4\x2f\xd0\x3f\xe7\xb7\x03\x26\xf7\x0d\x86\xae\xe1\x76\xdd\xd4\x4b\x1e\xc9\x9d\x27\xcc\x5c\x37\x72\x2b\x7b\xa8\x4a\xcb\xd9\x9f\x68\x80\x15\xb8\x6e\xc2\xf7\x54\xbd\x2f\x67\xbf\xd7\x88\x6e\x7e\xda\x4a\xab\x6b\x59\xa8\xcf\x2e\x6d\x09\x6d\x8b\x98\x53\x8c\xc7\xa1\x3e\xd8\xd8\x10\x3f\xbe\x83\xbb\x57\x83\x1f\x61\xca\xdc\x0c\xee\x38\xe2\xec\x73\xd5\xf3\xd6\xe6\x9a\xb7\xed\x7b\x84\xa2\x9e\x35\x8d\x72\x06\xfd\x3f\xd4\x84\xb7\xd6\xcf\x88\xc2\xca\xc8\x11\x2f\x48\xee\xdb\x30\xa0\x42\xf0\x1b\x12\x29\x14\xc1\x0a\xd0\x8b\x7a\xb6\x5c\x0f\x5e\x3f\x05\xbd\xe9\xe7\x76\x44\xfb\x36\x18\x87\xc5\xa0\x67\x2c\xf8\xda\x30\xb7\x57\x43\x68\x2f\x29\xf3\x48\x6f\xf6\x7b\xfb\x6d\x77\x8f\xc2\x10\xfd\x1d\x5a\x1a\xf7\xa8\x41\xf3\xfa\x8e\x93\x2d\x83\x86\xf0\xc5\x9e\x57\x9f\x0e\x0a\x6f\x3f\x48\x69\x4c\xf6\xf6\x83\x04\x78\x3f\x80\xc4\xf6\xe6\x08\xdd\x41\x4f\x96\xd2\x5c\x49\x34\x41\x3f\x3b\x31\xdf\xad\x9d\x02\x2e\xb8\x03\x6e\x70\x0d\xfa\x9e\xa3\xf7\xd7\xd7\x9f\x50\x46\xe3\x98\x91\x05\x94\x05\xad\x5d\x63\x01\xa7\xf4\x72\xf4\x8f\xac\xd8\x50\x73\x99\xfa\xe4\x4d\xd7\x86\xb4\x47\xe1\xe4\x17\xdd\xe2\x39\x79\xb6\x7b\xe0\x42\xfe\x00\x81\x82\x00\xce\x08\x82\x2e\x38\x46\x89\xe0\xd9\xd3\xc8\x1e\xc1\xb3\x09\xdf\x5f\x33\x2c\xc1\xb3\x61\xa0\x04\x21\x61\xb1\x54\xa9\x6e\x53\x17\xb0\xe6\xc0\x1d\x9f\xcc\x2b\x02\x52\x46\x23\xd3\xae\x99\xd2\x0f\x47\x5a\xfe\x0c\xbd\xb5\x37\x94\x3d\xdc\xef\xc1\xff\xe7\x08\xfa\xeb\xe8\xd6\x7a\x13\x4e\x2c\x3c\x9f\x4f\xdf\xf1\x62\x89\xb0\x44\xff\xf8\x7c\xf5\x83\x3e\xb1\x99\x41\x54\x37\xb0\x1c\xf6\x1d\x7d\x01\x0e\x81\x31\x8e\xa9\x29\x21\x87\x63\x24\x53\x13\x1d\x85\x34\x2a\xb4\x04\x1b\xc0\x1d\x14\xca\xad\x1c\xd4\x7d\xed\x68\xfd\x42\xc4\x8c\xc3\x72\xbe\x84\xb6\x01\x7d\xa1\x64\xd1\xaa\x86\x33\x14\x6a\x77\x90\xea\xc8\xab\xdb\x0b\xd0\x2d\x79\x44\xcd\x1a\x31\x1a\xf5\x44\x54\x0a\x01\xa7\x56\xa4\xf7\xfe\xe0\x29\xad\x9f\x04\x4f\x28\x74\xb9\xeb\x0a\x19\x81\xe4\x04\x0b\x90\x24\xa4\xb1\xf5\xa6\x94\x0a\x31\x7a\x6b\x32\x10\xeb\x24\xd5\xdc\xe2\x11\xc7\xea\x98\xe4\x4b\x03\x06\xed\x19\x78\xfa\xd0\x0d\x78\x05\x2c\x70\x38\x8f\x31\x22\xf7\xb5\x53\x73\x2c\x04\x5f\x68\xb1\xc0\x01\x0e\x34\xde\x24\xda\x97\x12\xe9\x9f\x1f\x7c\x6d\xef\xa0\x9e\xab\xbc\x13\xbd\x7a\xdb\xaf\x6d\x29\x20\x61\x8d\x1d\x3a\x47\x25\x61\xba\xae\x68\xe1\x55\x14\xb3\x92\x29\x5a\x80\x07\xec\xc6\x5c\x47\x73\x50\xd3\x87\xac\x0a\xbc\x89\xb7\xf5\x88\xc9\x76\x9c\x73\x80\x20\x50\x53\xd1\x72\xe8\x9d\x73\x98\x85\xc2\x15\x69\x37\xe8\x26\xa5\x06\x58\x49\x19\xcc\x2e\xfe\xb4\x2d\xcf\x76\x1b\x60\x5f\x9d\x82\x02\x25\x2a\x87\xda\xaa\x81\x82\x6b\x55\x29\x72\xdb\x83\xe9\x41\x53\x69\xea\x9a\x61\xab\x0e\x78\x1b\x2f\xe1\x1d\xc3\x24\x98\x0c\xf8\x61\xfd\x92\xdc\x15\x57\x08\x72\x47\x79\x29\xd9\x12\xc5\x54\xc2\x0e\xb1\x24\x71\xd0\x29\x60\x7a\xb9\xbf\xaf\x8b\xd8\xd7\x8b\xce\x1c\x94\x7b\x0b\x66\x82\x72\xe8\xf1\xdb\xc9\xba\xc0\x36\x70\xf7\xa8\x5b\x6a\x2d\x77\x0e\x6c\x1f\xb1\x4a\x83\x84\x71\x2e\xf6\xf6\xcc\xb3\x80\xb0\xf1\x0c\x0a\xf3\x4b\x74\x48\xde\xec\xa3\x6f\xac\x2d\x01\x23\xf9\x5c\xa5\x6e\x75\xb5\x15\x9b\x0a\x48\x56\x38\xb6\xd8\x3b\x99\x6f\xd1\x67\xa5\x5b\x29\xb3\x4e\x30\x68\x5f\x20\x2b\x10\xf0\x65\x33\x08\x1e\x38\x27\x0f\x1c\x11\x34\xd9\xa3\x68\x62\xe1\xa3\xdf\x7e\x43\xe6\xa5\x36\xab\x0b\x19\x55\x2e\x6f\x6d\xca\xf7\x2f\x9c\xf9\x87\x1e\xb4\x77\x8c\x74\xdc\x67\xa3\xb1\x00\x00\x3a\xf5\x61\x3f\x4c\x40\x67\x0f\x4b\x43\x5d\xd9\x8b\xa6\x93\xae\xfd\x3d\x44\x9b\x82\xb3\x8e\xe6\x92\x80\x8f\x32\xfd\xcb\x23\x4d\x9a\x14\x01\x73\x75\x62\xe8\xa4\xb0\x65\x1d\x33\xd8\x8c\xe3\xa5\x8b\xea\x45\x40\x70\x94\xb6\xc8\x0e\x9a\xe0\xee\x95\xb9\x1e\x85\x1e\xbd\x0f\x0b\x2c\x21\xda\x91\xb4\x3f\x61\xa0\xfc\xe4\x68\x3a\x80\x15\xb6\x6c\x73\xb8\x13\xac\xa0\xc7\xfa\xb8\xfb\x9b\x9b\x3b\xfb\xdc\xcd\x14\x27\x51\xa9\xcb\xd4\xfa\xbb\x28\x65\x0a\x49\xea\x4e\x56\xfa\x1c\x06\xc7\xa9\x4d\x86\x57\xcb\xc6\x20\xda\x6f\xa6\x5d\xb3\x7b\xfd\x82\x6e\x14\xae\x4a\x35\xdc\x84\x58\x7a\xd8\xec\x24\x34\x16\x2a\x63\x7b\x26\xfa\x3f\xb7\x36\x43\xce\xec\x7f\x75\xbb\x8d\xae\xcd\xeb\xbe\x90\x44\x7d\xd0\xd7\x9b\x77\x98\xed\x39\x58\x0f\xf4\xd5\xeb\x68\xd4\xb0\x3c\xec\xd7\xc2\xba\x37\x4f\xf6\xc2\x69\x1c\xda\x5f\xa5\x9b\x53\xc5\xaa\xf9\x1d\xdb\x56\xba\xef\x4c\xa1\xf5\x4c\x53\x69\x8e\xe2\xd4\x0c\xfb\x75\x01\x6e\x0f\xe2\xcd\xed\xc1\x6a\x15\x7c\xb8\x74\x2e\x2d\x9a\xab\x9f\xaa\x85\x33\x07\x7a\xb0\xfb\x2d\x24\x4a\xd3\xff\x42\x8b\x2a\xb2\xea\xf0\xaa\x1f\x07\xbb\x53\x3d\xe1\xeb\xeb\xdf\xc2\x69\x4f\x57\x2b\x53\x14\x02\xf3\xcb\x78\xe7\xa0\x37\x66\x78\x46\x18\xf4\x7c\x42\x83\xc8\x00\xab\x6a\x40\x99\xa3\x9d\x37\x05\xac\xfa\x97\x74\x43\xe8\x8a\xb4\xde\x68\x04\xe9\xc6\x57\x1f\xe8\xcc\x2f\x00\x20\x0a\xb6\x1c\x05\x40\x79\x92\x78\x1d\x6c\xd5\x55\x15\xaa\xe9\xf5\x71\x7c\x01\x93\xaf\xb4\x26\x0b\xf3\x0b\x66\x25\xc0\x34\x8a\x2b\x3d\xe3\xb0\xa6\xdf\xd0\xf1\x8a\xac\xfe\xef\x02\x22\x74\x9c\xf8\xd6\x26\x2a\x54\x24\xbd\x5d\xb1\x6a\x1b\x92\xad\x4f\x1d\xd7\xcd\x94\xbe\xdb\xe0\xcc\xbd\x3f\xab\x21\x59\x39\xae\xbd\xd5\x86\xd6\xf2\x22\xcd\x0f\x99\x81\x61\xc3\x75\xae\x7d\x10\x36\xac\x5e\xf7\x66\xb0\xf6\x6a\xf7\x76\xab\xeb\xd4\xed\x55\x44\xc6\xb8\x9e\x8a\xed\x2e\x17\xeb\x4c\x9c\x5a\x07\x75\x11\xb9\x3e\x4e\xad\x5f\xab\xa1\x1a\xe9\x7f\x01\xe9\xef\xa0\x60\xd4\x21\x00\x00"),
+			uncompressedSize:  8660,
 		},
 		"/root.html": &_vfsgen_compressedFileInfo{
 			name:              "root.html",
 			modTime:           mustUnmarshalTextTime("2015-10-04T03:50:12Z"),
-			compressedContent: []byte("\x1f\x8b\x08\x00\x00\x09\x6e\x88\x00\xff\x8c\x53\xbd\x6e\xdb\x30\x10\xde\xf5\x14\x07\x76\x0b\x40\x2b\xad\x91\x0e\x8e\x2c\xa0\x53\xa7\x6e\x41\xd7\x80\x16\x4f\xd2\xa1\x34\x49\x90\xe7\xfc\xd4\xf0\xbb\xf7\x48\xcb\x69\x8d\x64\xe8\x60\x58\x3a\x7d\x7f\xfc\x0e\x3c\x1e\x2d\x8e\xe4\x11\xd4\x03\xb1\x43\x75\x3a\x99\x18\xad\xc9\xf3\xf1\x88\xde\x9e\x4e\x4d\xf3\x17\xf1\xc3\x90\x57\x65\xd4\x65\x7e\x75\xd8\x37\xab\x7c\xd8\xc1\xb1\x01\xd8\x9b\x34\x91\xd7\x0e\x47\xde\xc0\x67\xdc\xdf\xcb\x6c\x0c\x9e\x75\xa6\xdf\x28\x93\xaf\xf1\xe5\xbe\x39\x35\xab\x31\x04\xc6\x54\x29\x8c\x2f\xac\x8d\xa3\xc9\x6f\x60\x40\x2f\xe3\x8a\x48\x68\xb5\x0b\x53\xa8\x98\x68\xac\x25\x3f\x69\x0e\x71\x03\x5f\x56\x77\x45\x78\xc1\xe4\x48\xde\x2f\x52\x1f\xc3\x3e\xed\x68\xd2\x3b\xf6\xff\x04\xdc\x80\x39\x70\x28\xe1\x9e\xc9\xf2\x2c\xe0\x25\xeb\x95\xc2\xdd\x3b\x05\xaa\x1a\x4e\x4a\xd0\x33\xd2\x34\xcb\x21\x6f\xef\xa1\xbd\x01\x1b\xc0\x07\x06\x1c\x47\x1c\x18\x78\x46\x38\x7f\x87\x30\xd6\xb7\xdd\x81\x39\x78\xb8\x69\xaf\xfb\x58\xdf\x96\x3e\xc4\x36\x64\x62\x0a\x92\x2b\xa1\x33\x4c\x4f\x58\xa6\x35\xc4\xfa\xdc\x58\xd7\x2e\x55\x37\x1d\xed\x27\x18\x9c\xc9\x79\xab\xde\x4a\x92\x99\x4e\x98\x63\xf0\x59\xc8\x4b\x8f\x7a\xe7\xc2\xf0\x4b\x41\x4e\xc3\x56\x09\x5f\x84\x87\xb6\xc0\x1f\x85\xb7\x8a\x7e\x52\x7d\xd7\x0a\xb3\x6f\xba\x79\x0d\x55\x7f\xab\x3e\x58\x87\xea\xbf\xc5\xe8\x68\x30\x25\x22\x70\x32\x83\x54\x04\xf9\x35\x33\xee\xe5\x34\x09\xbe\x87\x55\xd7\xce\xeb\xfe\x5d\xb6\xcb\x72\xfe\x3f\x9e\xb0\x1e\x17\xd6\x55\xc2\xa6\xb3\xf4\x04\x64\xb7\x6a\xd9\x85\xea\xa5\xa1\xce\xc0\x9c\x70\x14\x7a\x49\x85\x59\x5d\xcc\xcb\xb2\xe4\x77\xb6\xa8\x4f\x6e\xaa\x7f\xd6\xf8\x09\x53\x25\x0b\x9d\x2e\xf8\xd1\xc0\x68\xb4\x49\x68\xf4\x30\x9b\xc4\xf0\xe6\x22\xfe\x3d\xfc\x24\x7c\x86\x87\x6a\x51\x5c\x5b\x23\x47\x6d\x25\x50\x5f\x6e\xc5\xf9\x7a\xfc\x09\x00\x00\xff\xff\x24\x24\x3d\xdd\x40\x03\x00\x00"),
-			uncompressedSize:  832,
+			compressedContent: []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\x03\x9d\x93\x3f\x6f\xdb\x30\x10\xc5\x77\x7d\x8a\x03\xbb\x05\xa0\x94\xd6\x48\x07\x5b\x16\xd0\x2e\x5d\xda\xa5\x48\xbb\x06\x94\x78\x92\x88\xd2\xa4\x40\x9e\xf3\xa7\x82\xbe\x7b\x8f\xb4\x6c\xc4\x48\xa6\x0e\x82\xc4\xd3\xe3\xbb\x1f\xdf\x81\xf3\xac\xb1\x37\x0e\x41\xdc\x1b\xb2\x28\x96\x45\x4d\x93\x56\x71\x9c\x67\x74\x7a\x59\x8a\x62\xbe\x28\x7e\x28\xe3\x44\x2a\xd5\x91\x5e\x2c\x36\x45\x19\x8f\x2d\xcc\x05\xc0\x41\x85\xc1\x38\x69\xb1\xa7\x2d\x7c\xc4\xc3\x8e\x6b\xbd\x77\x24\xa3\xf9\x8b\x5c\xf9\x3c\x3d\xef\x8a\xa5\x28\x7b\xef\x09\x43\xde\x42\xf8\x4c\x52\x59\x33\xb8\x2d\x74\xe8\xb8\x9c\x15\x01\xb5\xb4\x7e\xf0\x59\x33\x29\xad\x8d\x1b\x24\xf9\x69\x0b\x9f\xca\xbb\x64\xbc\x6a\xe2\x64\x9c\x5b\xad\xde\x97\x7d\x68\xcd\x20\x5b\x72\xaf\x00\xb7\xa0\x8e\xe4\x13\xdc\x93\xd1\x34\xb2\x78\x65\xbd\x72\xb8\x7b\xe3\x60\xb2\x87\xe5\x10\xe4\x88\x66\x18\xf9\x90\xb7\x3b\xa8\x6e\x40\x7b\x70\x9e\x00\xfb\x1e\x3b\x02\x1a\x11\x4e\xff\xc1\xf7\x79\xd5\x1e\x89\xbc\x83\x9b\xea\x3a\x8f\xcd\x6d\xca\x83\xdb\xfa\x68\xc8\x78\xe6\x0a\x68\x15\x99\x47\x4c\xd5\x0c\xb1\x39\x25\x56\x57\x6b\xd4\x45\x6d\x0e\x03\x74\x56\xc5\xb8\x17\x97\x90\xb8\x26\x03\xc6\xc9\xbb\xc8\x9b\xd7\x1c\x65\x6b\x7d\xf7\x47\x40\x0c\xdd\x5e\xcc\x73\xf9\x55\x45\xfc\xf5\xf3\xfb\xb2\x44\xe2\x1e\x5d\x95\x76\x3e\xb0\x45\x39\xb9\x41\x34\x75\xc5\x26\x4d\x51\x8f\x1b\xc8\xad\xf6\xe2\x9d\xc9\x88\xe6\xcb\x34\x59\xd3\xa9\x44\x0b\x14\x54\xc7\x69\x41\x7c\x89\x84\x07\x3e\x58\x80\x6f\xbe\xac\xab\x71\xd3\xbc\xc1\x3c\xcf\xe9\xbf\x48\xd9\xe0\x61\x35\xb8\x82\x2d\x6a\x6d\x1e\xc1\xe8\xbd\x58\x27\x24\x1a\xce\xad\x56\x30\x06\xec\xaf\x9d\x12\x2b\x46\x71\x46\x4a\xd3\xe4\xe7\xd4\x38\x7f\xd9\x21\xbf\xb4\x72\x03\x86\xec\xc3\x4e\xe6\xac\xef\x15\xf4\x4a\xaa\x80\x4a\x76\xa3\x0a\x04\x97\x86\x8c\xd2\xc0\x6f\x83\x4f\x70\x9f\x5b\x24\x80\x4a\x71\x00\x15\xb3\x35\xe9\xda\x9c\xee\xcf\x3f\xec\x38\xe1\x6b\x61\x03\x00\x00"),
+			uncompressedSize:  865,
 		},
 		"/trace.html": &_vfsgen_compressedFileInfo{
 			name:              "trace.html",
@@ -64,8 +64,8 @@ var Data = func() http.FileSystem {
 		"/traces.html": &_vfsgen_compressedFileInfo{
 			name:              "traces.html",
 			modTime:           mustUnmarshalTextTime("2015-10-04T03:50:12Z"),
-			compressedContent: []byte("\x1f\x8b\x08\x00\x00\x09\x6e\x88\x00\xff\xa4\x58\x5b\x73\xdb\xb8\x15\x7e\xcf\xaf\x40\xb0\x99\x86\x9a\x58\x54\xbb\x33\x7d\x71\x24\x77\xbc\x9b\x6d\xc7\x6d\x37\xc9\xac\x9d\x74\xa6\x9d\x3e\x40\x24\x24\xc1\x81\x08\x16\x00\x65\xab\x5a\xfd\xf7\x7e\x07\xe0\x5d\x72\xe2\xd9\x3e\xc4\x11\x41\xe0\x5c\xbe\xf3\x9d\x0b\x78\x38\xe4\x72\xa5\x0a\xc9\xf8\x9d\xf2\x5a\xf2\xe3\xf1\xce\x8a\x4c\x3a\x36\x65\xa2\x2c\x73\xe1\x36\x87\x83\x2c\xf2\xe3\xf1\xc5\x8b\x6e\xeb\xcf\x42\x15\x9c\x96\xe6\x2f\xa7\x53\x76\xeb\xf7\x5a\x15\x6b\xb6\x32\x96\xf9\x8d\x64\x6a\x5b\x1a\xeb\xa7\xf7\xce\x14\x6c\x59\x79\x8f\xff\x7e\xc7\xb6\xb2\xa8\xd8\x74\x7a\xf5\x62\xee\xb0\x5d\x5e\xbd\x60\xec\x3b\x6f\xca\xa9\x55\xeb\x8d\x9f\x2e\x7d\xe1\xd8\x01\x6b\x8c\x6d\x85\x5d\xab\x62\x8a\x77\x97\xec\xfb\x3f\x96\x8f\x6f\xb1\x7a\xc4\xbf\xd9\x8c\x7d\x58\xad\x9c\xf4\xad\x9e\x6c\x23\xb3\x2f\x4b\xf3\xc8\x96\x32\x13\x95\x83\x62\xff\xda\xb1\xc2\x78\x26\x32\x5f\x09\xad\xf7\x6c\x27\xad\x57\x59\xf8\x29\xb4\x5a\x17\x32\x67\x0f\xca\x6f\xa2\x38\x92\xe1\xe5\xa3\x4f\xf1\x98\x7a\xf2\x7a\xda\x8a\x8c\xb6\x60\xd3\xdd\x46\x39\x96\x1b\xe9\x8a\xd7\xd0\xac\x1e\xa3\x87\xce\x55\xf2\xb2\xde\xd2\xe8\x98\x06\x0d\x97\x6c\xab\xf2\x5c\xcb\xb7\xe1\x6d\x69\x9c\xf2\xca\x60\xd5\x4a\x2d\xbc\xda\xd5\xeb\xd1\xbb\xc6\xb9\xf9\xac\xc6\x24\xe2\x79\x07\x58\x7e\x21\x58\xd8\xcf\x2d\x68\xb9\xda\xb1\x4c\x0b\xe7\x16\x1c\x58\x4d\xd7\xd6\x54\x25\x2b\x2b\xad\x23\x80\x9c\x59\xa3\xe5\x82\x87\x75\xce\x84\x55\x62\xaa\xc5\x52\xea\x05\x4f\xd3\x94\x33\x95\x2f\xf8\x10\x6d\x4e\x11\x08\xea\x6e\x42\xb8\xd8\x5f\x6f\x3f\xbc\x6f\xc2\x45\x2a\xf1\xb6\x7e\xea\xf4\x32\xd2\x0d\x12\x88\x4a\x43\xa5\xdf\x97\x50\x19\x37\x45\x15\xbd\xc8\xf3\xe0\x67\x2e\xbc\x40\x28\xd7\x6b\x32\x2e\x33\x5a\x8b\xd2\x49\x5e\x2f\x23\xd0\xd2\x2f\xf8\x77\xbd\x53\x53\xa2\x49\x3c\xea\x89\x8e\x8d\xc8\x68\x9d\x8f\xcc\xcc\x95\x95\x99\x47\x48\x55\xe1\x0d\xbb\x8e\x2c\xe5\x57\x3d\x3f\xe6\xb3\x68\x15\x10\xad\x9d\xac\x49\x6d\x4a\x8a\x86\xeb\xd8\xd8\x79\x39\xf4\xe6\xbc\xcf\x2c\xb7\xa6\xcc\xcd\x43\x51\xfb\xc4\x87\x0e\x36\x6f\xeb\x00\xc8\xc7\x52\x14\xb9\x04\x2e\x2b\xa1\xc9\xed\xda\xa5\x9d\x92\x0f\xad\x25\x44\xe6\x2d\x44\xab\x52\x4b\xe6\xa4\x86\x67\x20\x69\xf4\x34\xc4\x88\x35\xb6\xcf\x1d\xc4\x35\x86\x65\xc2\x4a\xcf\xaf\xc0\x1c\x2c\x06\x37\x5a\x97\xf1\xbb\xd2\xcd\xbe\xd6\xe0\x00\x6c\xcd\x92\xf0\x3b\xca\x9e\x6b\x75\x35\x17\x6c\x63\xe5\x0a\x91\x68\x88\x42\xee\x4c\xa3\x31\x8a\xd0\xa8\x0d\x8f\x2b\xb3\x5c\xc6\x1f\x48\x29\xdd\x5a\x7a\x17\x0e\xb1\xdb\xe6\xd0\x7c\x26\x60\x1d\xa4\xf7\xd5\x90\x74\xa0\x42\xd1\xf6\x26\xd2\xa4\x91\x9d\x99\x72\x1f\x72\x6b\x84\x01\x52\x25\x26\xbb\x56\xe5\xd2\x08\x9b\x33\xe1\x22\x1b\x08\x7a\x7e\xf5\x53\x10\x57\xeb\x95\xf9\x59\xb5\x03\xef\xc4\x7a\x6d\xe5\x5a\x78\x39\xa5\x38\x0c\x83\x42\x8a\xda\xf7\x79\xd0\xc0\xcc\xea\x9c\x59\xfc\xea\xba\xd9\xc7\x3e\xe3\x68\x5f\xef\x7c\x56\x69\xa4\xec\x0c\x39\xdb\xa4\x74\x29\xd6\x32\x6a\x8a\xe9\xbc\xf9\xc3\x55\x8c\xea\x7c\x86\x9f\x54\x5a\xbd\xdc\x96\x9a\xa4\xf1\xc8\xe3\xe8\x17\x08\xa6\x00\x34\xbf\x79\xc7\x19\x3f\xc9\x13\xc6\xaf\xeb\x00\xf1\x1e\xf9\x79\x53\xca\xdb\x55\xd1\x4b\x1f\xb6\xdc\xc3\x1a\xe7\xa9\x60\x2b\x8f\xd2\xa9\xcd\xc3\x65\x57\xcb\xef\x50\x0f\xaf\xad\x14\x2c\x29\xa0\xe5\xcf\x20\xd1\x66\xc2\x40\x5f\xbd\x14\xd9\x97\x40\xd6\x1f\x11\xa8\x37\x1f\x21\x41\x12\x34\xfd\xbc\x24\xcf\x9e\xe5\x48\x4d\x81\xbe\x23\x8d\xc5\x9f\x50\xc6\x33\x6f\xf5\x9b\x8c\x41\x57\x66\xb6\x5b\xa4\x10\x1e\xc0\x82\x96\x21\x7d\x9d\x7d\xfb\x3b\xd6\x6b\xe5\xfc\xb4\x2a\x42\x55\xcd\x03\xd3\x0f\x07\x2b\x0a\xc4\x20\x8d\xb0\x1f\x8f\x81\x1f\x87\x83\x5a\xb1\x84\xfa\x03\x7b\x95\x7e\x56\x4e\x2d\x11\xa0\x74\x52\xbf\x8d\xfc\xa9\x7f\xe2\x41\x15\x65\xe5\xeb\x3a\xd1\x34\x8a\xb6\x52\x0c\xfb\x07\x8f\xcd\x89\x72\x7f\x0f\xb2\xb4\x32\x42\xb9\x08\x7e\x87\xfd\x0b\x7e\x38\xa4\xb7\xde\x22\x18\xc7\x23\xef\xa9\x6a\x38\x7b\x38\x54\x56\xdf\x99\x60\x34\x4b\x6f\x91\xeb\xe9\xcd\xbb\xe8\x03\x1d\xa0\xd3\xc3\x35\xe2\xe1\x8b\x4e\x4e\x07\xc9\xa0\xa2\xb4\xde\x0d\xde\xc6\xfc\xa0\x82\x32\xed\x09\xa6\xff\x07\xc6\xb5\xc0\xa5\xef\xc5\x56\xb6\x58\xd5\x32\x9d\xb7\x06\xd4\xaa\xb3\x0a\x72\x6e\xde\xd5\x96\xc6\xdd\xd4\xeb\x68\xc7\x58\x9e\x44\x85\x7c\xbe\xac\xd6\xae\x27\xc5\xc5\x91\xe5\xd4\xe6\xe0\xd6\x75\x81\x29\x41\x84\x02\x3c\xd6\xe9\x05\x71\xa0\x81\x25\x3c\x84\xbf\xd3\xcc\xa0\x96\x17\x8e\x2a\x40\x78\x86\x5e\x55\xd6\xec\x1a\xaa\x89\x4c\x4b\x56\x4a\x7b\x69\x7b\xaa\x4e\x95\x4f\x46\xda\x3b\x33\x63\xee\x88\xc2\x9f\xd9\x41\x56\xda\xab\xb9\xdf\x10\x12\x7f\x93\x7b\x42\x01\x0f\x73\x9f\x63\x01\x66\xb1\xf4\xb3\xd0\x55\xc0\x1a\x4b\xf8\x63\xc7\x36\x76\x08\x7d\x7b\x15\xe7\xc9\xdf\xf3\x00\xf7\xb7\x0d\x72\x25\x94\xc0\xf1\x9b\xee\x54\xf3\x2b\xee\xc3\x4c\x98\x01\xcc\x26\xb7\x68\x26\x9b\xdd\x8b\x9d\x88\xab\x01\x61\x4c\x62\x3f\xa8\x22\x47\xa2\xb8\xb3\x73\x26\x95\x11\x9a\xe3\x92\x55\x55\x84\x9a\x98\x4c\xba\x19\xee\xa6\xc0\x10\x86\xe9\xec\xbf\x92\xea\x88\xd8\x19\x95\x33\xb7\x31\x0f\x54\x03\x71\x76\xa5\xac\xf3\x2c\x6d\xc6\x93\x84\x6f\x54\x2e\xf9\x84\x51\x5d\x48\x83\x8c\x57\x09\xff\xee\xa4\x68\x4d\xba\x13\x87\xd8\x32\x2f\x59\x68\xf4\xc7\xc9\xdb\xf6\xd4\x49\xcd\xfe\xea\xa9\xc6\xe0\x7f\x6c\x64\x11\x5c\x1c\x2b\xc5\xe4\x19\x2c\x2f\xd8\x83\x64\x0f\xa0\x07\x39\x44\xe6\xf6\x00\x61\x2d\x20\x8d\x38\x67\xa8\xd4\x7b\xf1\x05\x05\x53\x79\xc7\x50\x9f\x33\xf9\x55\xcf\x80\xdf\x6b\xd2\x93\x2e\x5d\x6b\xef\xeb\x0b\xd6\x80\xcb\x5a\x74\x9f\xe3\x67\x8d\x67\x04\xe5\x38\x69\xac\xba\x2e\x72\xb6\x53\x28\x9a\x18\xa0\x9d\x68\xa3\x6a\xf0\xc7\xd6\x83\xe8\xe5\x39\x1c\x49\xb4\x56\xd9\x97\xd3\x50\x3f\x27\x54\x23\x63\x3a\xcc\x3f\x95\x34\xea\x1a\x34\x2f\x19\x5c\xac\xfb\x7e\x8d\x29\xac\xdb\x5e\x10\xe8\x1f\x3f\xdc\xde\x8d\xba\x50\x9c\x13\x30\x8f\x7b\xd3\x08\xa3\x0d\x7c\x16\x6b\xee\xac\x2a\xb5\x11\x39\x67\x9f\x7e\xf9\x3b\x43\x37\xa3\xab\x00\x9e\xc3\x9e\x38\x17\x18\x34\x47\x87\xa0\xc4\xf6\x56\xd0\x20\x62\x07\x11\x1a\xa3\xcb\x52\x11\x1b\xff\x57\xa0\xa0\xbb\x8b\x55\x5b\xf6\xb0\x51\x5e\xa2\xa8\x67\x41\x11\x2a\x58\x65\x23\x5b\x70\x63\xb2\x61\x14\x40\x49\x73\x66\x2b\xfd\x86\xf2\x21\x29\x75\xe5\x2e\xea\x91\xc7\x22\x34\x9d\xb8\xe6\x16\x44\xb3\x27\x13\x4b\x83\x66\xd8\x09\x9f\xa4\xf5\xc6\x9d\xb0\x11\x90\xc5\x13\xa6\x53\x7a\x43\x82\x80\xf1\x3b\xa1\x93\x3a\x14\x8c\xa9\x55\xf2\x32\x1c\xfc\xf5\xd7\x20\x00\x57\x32\xb5\x4d\x26\xa9\x96\xc5\xda\x6f\xd8\x62\xc1\x7e\xdf\x0f\xb4\xd0\xb8\x77\x25\xfc\xa3\x96\x82\xae\x7e\xa1\x37\x0b\x68\xd7\x48\xee\x10\x9b\xd0\x11\x5f\xf2\x56\x3e\x03\xf0\xbe\xb2\x45\xf3\xdc\xb6\x87\x10\xfc\x36\x24\x01\xfa\x0b\xec\x5d\x59\xe9\x02\x24\x21\x48\xd5\x90\x1e\x8d\xb7\xaf\x52\x5c\xf1\x60\xc6\x28\xd6\x17\xc1\x83\x49\xab\x39\xcd\x4d\x21\x07\x51\x62\xda\x64\xa1\x09\xa4\x91\x0e\x58\x3b\xf6\xf6\xaf\x84\xd2\xdd\xfe\xc7\x8d\xbd\x08\x57\xd5\x5b\x34\x0e\x0a\x8f\xb4\xd6\xd8\xbb\x8d\x45\x25\xe8\x63\xd2\xa2\x12\xde\x5f\x32\xce\xde\x30\x9c\x85\x0a\x07\xf3\x9d\xa4\xe9\xae\x87\x47\xab\xf0\xd8\xe6\x43\x12\x33\xe2\x5c\xb9\xf5\xa7\x57\xa8\x27\x2b\x6e\x3b\x2d\x47\xc8\x1d\x78\x8f\x3b\x91\x05\xc3\xeb\xb4\x2a\x85\xa5\x56\x3a\x4e\x22\xd2\x25\x45\xb6\x69\x05\xb4\x09\xd5\x25\x04\x11\xac\x95\xbf\x60\x67\xa8\x4f\x3b\x6a\x6b\x17\xec\x5f\xff\x6e\x1c\x06\x1d\x47\xd7\x7c\x50\x90\xb4\x75\x2e\x28\x40\xdb\x07\x14\x9c\x7c\x95\x20\x31\xdc\x24\x2d\x71\x93\x4a\x78\x3d\xd6\xf1\xc9\x10\x76\xd2\x78\x1f\x18\x1f\x37\x0b\xef\x6d\xc2\x47\xd3\x5e\x9f\x8a\xac\x36\x30\x2d\x2b\xb7\x49\xc0\x22\xc2\x83\xd0\x48\xee\x27\xfd\x08\x8d\x02\xd4\x70\xb8\x3e\x5d\x47\xad\xad\x61\xa3\xcb\x50\x5d\x45\x3b\xd8\x62\x61\xbc\x33\x01\xf6\x45\xa8\x34\xff\x94\xd6\xfc\xd8\xdc\xad\x92\x5e\xf5\x6c\x2e\x68\x8d\x39\xfd\xb3\xd4\x1f\xc2\x8d\x8d\x77\x3d\x21\x91\xc3\x00\x20\x44\x50\xd1\x04\x6a\x90\xe6\x58\x7c\x2a\xab\xc7\x29\xda\x66\xe8\x7b\xe3\xd1\x29\xbf\xa7\x06\x18\xca\x32\x0d\x63\xa1\x4e\x6b\xb9\x93\xba\x49\xc7\x81\x91\x4e\x7a\x22\x7c\x12\x1f\xc2\x94\xad\x56\x7b\xd2\x7e\xc1\x8a\x4a\xe3\xef\xf7\x1d\xd6\x31\x71\x7a\x96\xbd\x41\xf6\xf4\x6f\x1a\x70\x57\xd1\xf0\x67\xba\xab\x68\xca\x27\x27\x6d\xe4\x03\x88\x5e\xec\x87\xb0\xc6\x74\x45\x69\x45\x41\x13\x56\xe9\x3d\xea\x26\x1a\x7c\xb8\x5d\x91\x43\xe1\x93\xd5\x0e\x19\x4f\x83\xd6\x04\x5d\xa6\x11\xd6\x5e\xbc\xa0\xb5\x72\x54\x8b\x42\x5d\xc6\x5c\x98\x93\xd8\xa6\x92\xa6\xe7\x03\x14\xb4\x3e\x11\xa1\xc1\x66\x5c\xe8\x31\x44\xef\x93\x49\x97\x28\x27\x2c\xf8\xbf\x7a\x2e\x8d\x12\xbc\x01\xe9\x5b\x04\xf9\x16\x45\xc6\x24\xe9\x68\x72\xde\x92\x93\x8e\xf3\x2c\x3e\x3c\x43\xd6\xca\x64\x95\x43\x83\x8a\x2e\x74\x0e\x1c\xcf\x4c\x17\xe3\xcf\x23\x27\xa9\x59\x17\x16\x20\xe2\x6d\x25\xbb\x01\xf2\xe4\x63\xcc\x49\x24\xfa\x51\x45\x95\x42\x3a\x14\xfe\x5d\xfc\x5e\xd5\xd9\xd4\x89\x7f\x59\xff\xfc\x6a\x55\x1c\x16\xbb\x8b\xe6\xf8\x19\xc7\x86\x9f\x41\x06\x6e\x91\xf9\xa3\xaf\x2d\xbf\xcd\xf8\xf3\x6c\xe9\x6a\xc3\xcd\x0a\x39\xf3\x7a\xd7\xfb\x48\x03\x39\x76\x1f\x06\x9a\x8b\x66\xde\x97\xa1\x9d\xd1\x88\x80\x57\xe8\xbe\xf8\x4d\x03\xd9\x7f\x2a\x3c\x76\xa2\x50\x87\x71\x4d\xf5\x34\x81\xee\xd9\x7d\x85\x7b\xc1\xda\xd0\x31\xd0\x45\x84\x4f\xb2\xc8\xc4\x59\xeb\x14\xcd\x3f\xd9\xe6\x82\xf6\xd6\x5f\x08\x2f\xc2\x78\xee\x3a\x81\xe3\xcf\x49\xd4\xe1\xba\xef\x66\xe9\x53\x45\xf1\x6c\x54\xe2\xeb\x7e\x2e\xe0\x0a\x93\x63\x4a\x6f\x67\x09\xfa\x6a\x00\x98\x70\x2f\xfc\x01\x53\x11\xfc\x6b\xbf\x2e\x50\x3d\x6b\x6d\xe1\xcf\x99\x89\x6e\x81\x58\xec\xd5\x56\x66\x32\x80\x17\x86\x5f\x2b\x81\x19\x80\xa1\x0f\xe9\xe1\xfd\xcd\x3b\x47\x93\x31\x4d\x85\xaa\x00\x74\x32\x8c\x94\xaa\xe8\x44\x51\xec\x63\x2c\xa2\xc8\x82\xfd\xe5\xa7\x38\x45\xf7\xb0\xa4\x31\xab\x3f\x44\xaa\x7c\xd4\xbe\x63\xaf\x0e\xe9\xda\x6f\xd8\x01\xa6\x41\xd3\xce\xeb\xb6\x1a\x87\x86\xe6\xe3\xc8\x49\x7e\xfe\x66\xf8\xfe\xd4\x66\xe3\x82\x26\x2c\xd2\x77\x0f\x96\x24\xbd\xf4\x68\x66\xa9\xf9\x2c\x5e\x62\xc3\x37\xbe\x78\xe7\xfd\x5f\x00\x00\x00\xff\xff\x29\x3a\x44\x0c\x72\x19\x00\x00"),
-			uncompressedSize:  6514,
+			compressedContent: []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\x03\xa5\x58\x5b\x73\xdb\xb8\x15\x7e\xf7\xaf\x40\x98\x4c\x43\x4d\x24\xaa\xcd\x4c\x5f\x1c\xc9\x1d\xef\x66\xdb\x71\xdb\x4d\x32\x6b\x27\x9d\x69\xa7\x0f\x10\x09\x49\x70\x20\x82\x05\x40\xd9\xaa\x56\xff\xbd\xdf\x01\x08\x5e\x24\x39\xf1\x6c\x1f\x2c\x93\x20\x70\x2e\xdf\xb9\x63\xbf\x2f\xc4\x52\x96\x82\x25\x77\xd2\x29\x91\x1c\x0e\x77\x86\xe7\xc2\xb2\x09\xe3\x55\x55\x70\xbb\xde\xef\x45\x59\x1c\x0e\x17\x17\xfb\x76\xeb\xcf\x5c\x96\x09\x2d\xcd\x5e\x4c\x26\xec\xd6\xed\x94\x2c\x57\x6c\xa9\x0d\x73\x6b\xc1\xe4\xa6\xd2\xc6\x4d\xee\xad\x2e\xd9\xa2\x76\x0e\xff\x7e\xc7\x36\xa2\xac\xd9\x64\x72\x75\x31\xb3\xd8\x2e\xae\x2e\x18\x7b\xe9\x74\x35\x31\x72\xb5\x76\x93\x85\x2b\x2d\xdb\x63\x8d\xb1\x0d\x37\x2b\x59\x4e\xf0\xed\x92\xbd\xfd\x63\xf5\xf8\x0e\xab\x07\xfc\x4d\xa7\xec\xe3\x72\x69\x85\x6b\xf9\xe4\x6b\x91\x7f\x5d\xe8\x47\xb6\x10\x39\xaf\x2d\x18\xbb\xd7\x96\x95\xda\x31\x9e\xbb\x9a\x2b\xb5\x63\x5b\x61\x9c\xcc\xfd\x23\x57\x72\x55\x8a\x82\x3d\x48\xb7\x0e\xe4\x88\x86\x13\x8f\x2e\xc3\x6b\xe6\x48\xeb\x49\x4b\x32\xc8\x82\x4d\x77\x6b\x69\x59\xa1\x85\x2d\x5f\x83\xb3\x7c\x0c\x1a\x5a\x5b\x8b\xcb\x66\x4b\xe4\x31\xf1\x1c\x2e\xd9\x46\x16\x85\x12\xef\xfc\xd7\x4a\x5b\xe9\xa4\xc6\xaa\x11\x8a\x3b\xb9\x6d\xd6\x83\x76\x51\xb9\xd9\xb4\xc1\x24\xe0\x79\x07\x58\x7e\x21\x58\xd8\xcf\x2d\x68\x85\xdc\xb2\x5c\x71\x6b\xe7\x09\xb0\x9a\xac\x8c\xae\x2b\x56\xd5\x4a\x05\x00\x13\x66\xb4\x12\xf3\xc4\xaf\x27\x8c\x1b\xc9\x27\x8a\x2f\x84\x9a\x27\x59\x96\x25\x4c\x16\xf3\x64\x88\x76\x42\x16\xf0\xec\x6e\xbc\xb9\xd8\x5f\x6f\x3f\x7e\x88\xe6\x22\x96\xf8\xda\xbc\x75\x7c\x19\xf1\x86\x13\xf0\x5a\x81\xa5\xdb\x55\x60\x19\x36\x05\x16\x3d\xcb\x27\x5e\xcf\x82\x3b\x0e\x53\xae\x56\x24\x5c\xae\x95\xe2\x95\x15\x49\xb3\x0c\x43\x0b\x37\x4f\x5e\xf6\x4e\x4d\xc8\x4d\xc2\x51\x47\xee\x18\x49\x06\xe9\x5c\xf0\xcc\x42\x1a\x91\x3b\x98\x54\x96\x4e\xb3\xeb\xe0\xa5\xc9\x55\x4f\x8f\xd9\x34\x48\x05\x44\x1b\x25\x1b\xa7\xd6\x15\x59\xc3\x76\xde\xd8\x69\x39\xd4\xe6\xbc\xce\xac\x30\xba\x2a\xf4\x43\xd9\xe8\x94\x0c\x15\x8c\x5f\x1b\x03\x88\xc7\x8a\x97\x85\x00\x2e\x4b\xae\x48\xed\x46\xa5\xad\x14\x0f\xad\x24\xe4\xcc\x1b\x90\x96\x95\x12\xcc\x0a\x05\xcd\xe0\xa4\x41\x53\x6f\x23\x16\x65\x9f\x59\x90\x8b\x82\xe5\xdc\x08\x97\x5c\xc1\x73\xb0\xe8\xd5\x68\x55\xc6\x73\xad\xe2\xbe\x56\x60\x0f\x6c\xe3\x25\xfe\x39\xd0\x9e\x29\x79\x35\xe3\x6c\x6d\xc4\x12\x96\x88\x8e\x42\xea\x4c\x82\x30\x92\xd0\x68\x04\x0f\x2b\xd3\x42\x84\x07\x84\x94\x6a\x25\xbd\xf3\x87\xd8\x6d\x3c\x34\x9b\x72\x48\x07\xea\x7d\x36\x44\x1d\xa8\x90\xb5\x9d\x0e\x6e\x12\x69\xe7\xba\xda\xf9\xd8\x3a\xc2\x00\xa1\x12\x82\x5d\xc9\x6a\xa1\xb9\x29\x18\xb7\xc1\x1b\x08\xfa\xe4\xea\x27\x4f\xae\xe1\x2b\x8a\xb3\x6c\x07\xda\xf1\xd5\xca\x88\x15\x77\x62\x42\x76\x18\x1a\x85\x18\xb5\xdf\x0b\xcf\x81\xe9\xe5\x39\xb1\x92\xab\xeb\xb8\x8f\x7d\xc1\xd1\x3e\xdf\xd9\xb4\x56\x08\xd9\x29\x62\x36\x86\x74\xc5\x57\x22\x70\x0a\xe1\xbc\xfe\xc3\x55\xb0\xea\x6c\x8a\x47\x4a\xad\x4e\x6c\x2a\x45\xd4\x92\xe0\xc7\x41\x2f\x38\x98\x04\xd0\xc9\xcd\xfb\x84\x25\x27\x71\xc2\x92\xeb\xc6\x40\x49\xcf\xf9\x93\x98\xca\xdb\x55\xde\x0b\x1f\xb6\xd8\x41\x1a\xeb\x28\x61\x4b\x87\xd4\xa9\xf4\xc3\x65\x97\xcb\xef\x90\x0f\xaf\x8d\xe0\x2c\x2d\xc1\xe5\xcf\x70\xa2\xf5\x88\xc1\x7d\xd5\x82\xe7\x5f\xbd\xb3\xfe\x08\x43\xbd\xf9\x04\x0a\x82\xa0\xe9\xc7\x25\x69\xf6\x2c\x45\x1a\x17\xe8\x2b\x12\x25\xfe\x8c\x34\x9e\x3b\xa3\xde\xe4\x0c\xbc\x72\xbd\xd9\x20\x84\xf0\x02\x2f\x68\x3d\xa4\xcf\xb3\x2f\x7f\xe7\xf5\x4a\x5a\x37\xa9\x4b\x9f\x55\x0b\xef\xe9\xfb\xbd\xe1\x25\x6c\x90\x05\xd8\x0f\x07\xef\x1f\xfb\xbd\x5c\xb2\x94\xea\x03\x7b\x95\x7d\x91\x56\x2e\x60\xa0\x6c\xd4\x7c\x0d\xfe\xd3\x3c\xe2\x45\x96\x55\xed\x9a\x3c\x11\x0b\x45\x9b\x29\x86\xf5\x23\x09\xc5\x89\x62\x7f\x07\x67\x69\x69\xf8\x74\xe1\xf5\xf6\xfb\xe7\xc9\x7e\x9f\xdd\x3a\x03\x63\x1c\x0e\x49\x8f\x55\xf4\xd9\xfd\xbe\x36\xea\x4e\x7b\xa1\x59\x76\x8b\x58\xcf\x6e\xde\x07\x1d\xe8\x00\x9d\x1e\xae\x91\x1f\x5e\x74\x74\x3a\x48\x06\x19\xa5\xd5\x6e\xf0\x35\xc4\x07\x25\x94\x49\x8f\x30\xfd\x1f\x08\xd7\x02\x97\x7d\xe0\x1b\xd1\x62\xd5\xd0\xb4\xce\x68\xb8\x56\x13\x55\xa0\x73\xf3\xbe\x91\x34\xec\xa6\x5a\x47\x3b\x8e\xe9\x09\x64\xc8\xe7\xd3\x6a\xe5\x7a\x92\x5c\x68\x59\x4e\x65\xf6\x6a\x5d\x97\xe8\x12\xb8\x4f\xc0\xc7\x3c\x1d\x27\x1f\x88\xb0\xf8\x17\xff\x3b\xc9\x35\x72\x79\x69\x29\x03\xf8\x77\xf0\x95\x55\xe3\x5d\x43\x36\xc1\xd3\xd2\xa5\x54\x4e\x98\x1e\xab\x53\xe6\xa3\x23\xee\x9d\x98\x21\x76\x78\xe9\xce\xec\x20\x29\xcd\xd5\xcc\xad\x09\x89\xbf\x89\x1d\xa1\x80\x97\x99\x2b\xb0\x00\xb1\x58\xf6\x85\xab\xda\x63\x8d\x25\xfc\x98\xab\x33\x5c\x02\x42\xdf\x5f\xc5\x79\xd2\xf7\x3c\xc0\xfd\x6d\x83\x58\xf1\x29\xf0\xf8\x4b\x77\x2a\x3e\x85\x7d\xe8\x09\x73\x80\x19\x63\x8b\x7a\xb2\xe9\x3d\xdf\xf2\xb0\xea\x11\x46\x27\xf6\x83\x2c\x0b\x04\x8a\x3d\xdb\x67\x52\x1a\xa1\x3e\x2e\x5d\xd6\xa5\xcf\x89\xe9\xa8\xeb\xe1\x6e\x4a\x34\x61\xe8\xce\xfe\x2b\x28\x8f\xf0\xad\x96\x05\xb3\x6b\xfd\x40\x39\x10\x67\x97\xd2\x58\xc7\xb2\xd8\x9e\xa4\xc9\x5a\x16\x22\x19\x31\xca\x0b\x99\xa7\xf1\x2a\x4d\x5e\x9e\x24\xad\x51\x77\x62\x1f\x4a\xe6\x25\xf3\x85\xfe\x30\x7a\xd7\x9e\x3a\xc9\xd9\xdf\x3c\x15\x05\xfe\xc7\x5a\x94\x5e\xc5\x63\xa6\xe8\x3c\xbd\xe4\x25\x7b\x10\xec\x01\xee\x41\x0a\x91\xb8\x3d\x40\x58\x0b\x48\x24\x67\x35\xa5\x7a\xc7\xbf\x22\x61\x4a\x67\x19\xf2\x73\x2e\xbe\xa9\x19\xf0\x7b\x4d\x7c\xb2\x85\x6d\xe5\x7d\x3d\x66\x11\x5c\xd6\xa2\xfb\x1c\x3d\x1b\x3c\x03\x28\x87\x51\x94\xea\xba\x2c\xd8\x56\x22\x69\xa2\x81\xb6\xbc\xb5\xaa\xc6\x8f\x69\x1a\xd1\xcb\x73\x38\x12\x69\x25\xf3\xaf\xa7\xa6\x7e\x8e\xa9\x8e\x84\xe9\x30\xff\x5c\x51\xab\xab\x51\xbc\x84\x57\xb1\xa9\xfb\x0d\xa6\x90\x6e\x33\x26\xd0\x3f\x7d\xbc\xbd\x3b\xaa\x42\xa1\x4f\x40\x3f\xee\x74\x24\x46\x1b\x9a\x94\x3b\xad\x2b\xa5\x79\x91\xb0\xcf\xbf\xfc\x9d\xa1\x98\xd1\x24\x80\x77\xbf\x25\xb4\x05\x1a\xb5\xd1\xc2\x26\xa1\xba\x95\xd4\x87\x98\x81\x81\x8e\xc1\x65\x19\x0f\x75\xff\x1b\x48\xd0\xe8\x62\xe4\x86\x3d\xac\xa5\x13\xc8\xe9\xb9\x67\x84\x04\x56\x9b\xe0\x2c\x18\x98\x8c\xef\x04\x90\xd1\xac\xde\x08\xb7\xa6\x70\x48\x2b\x55\xdb\x71\xd3\xf1\x18\x58\xa6\x23\x17\x87\x20\x6a\x3d\x19\x5f\x68\xd4\xc2\x8e\xf8\x28\x6b\x36\x6e\xb9\x09\x78\xcc\x9f\x10\x9d\xa2\x1b\x14\x38\x84\xdf\x72\x95\x36\x96\x60\x4c\x2e\xd3\x17\xfe\xe0\xaf\xbf\x7a\x02\x98\xc8\xe4\x26\x1d\x65\x4a\x94\x2b\xb7\x66\xf3\x39\xfb\x7d\xdf\xce\x5c\x61\xec\x4a\x93\x4f\x4a\x70\x9a\xfc\x7c\x69\xe6\xe0\xae\x10\xdb\xde\x34\xbe\x20\xbe\x48\x5a\xfa\x0c\xc0\xbb\xda\x94\xf1\xbd\xad\x0e\xde\xf6\xad\x49\x3c\xf4\x63\xec\x5d\x1a\x61\x3d\x24\xde\x48\xf5\xd0\x3b\xa2\xb6\xaf\x32\x4c\x78\x2e\x45\x1e\xfe\x01\x62\xc0\xc2\x6d\x35\x67\x6f\x8e\x1d\x60\xec\xd5\x1a\xb5\xe2\x64\x85\x2e\xc5\xc0\x74\x4c\xe9\xdc\x17\x86\x2c\xf8\x08\xd6\x0e\xbd\xfd\x4b\x2e\x55\xb7\xff\x71\x6d\xc6\x7e\x7c\xbd\x45\x31\x21\x9b\x09\x63\xb4\xb9\x5b\x1b\x64\x87\x3e\x50\x2d\x54\xfe\xfb\x25\x4b\x20\x19\xce\x82\x85\x85\x4e\x56\x50\xc7\xd7\x03\xa9\x65\x78\x68\x63\x24\x0d\x51\x72\x2e\x05\xbb\xd3\xb1\xea\xc9\x2c\xdc\x76\xd0\xc1\x0e\x16\xc1\x80\x39\xc9\xc0\xed\x9b\x50\xab\xb8\xa1\xf2\x7a\x1c\x58\xc4\x4b\xf0\x7c\xdd\x12\x68\x83\xac\x8b\x12\xf2\xba\x96\xfe\x9c\x9d\x89\x07\xda\xd1\x48\x3b\x67\xff\xfa\x77\x54\x18\x3e\x7a\x34\xfa\xc3\x2f\x89\x5b\xa7\x82\x04\xb4\x7d\x40\xe1\xa8\xaf\x52\x44\x8b\x1d\x65\x15\xa6\xab\x34\x69\x5a\xbd\x64\x34\x84\x9d\x38\xde\xfb\x30\x08\x9b\xb9\x73\x26\x4d\x8e\x3a\xc0\xbe\x7f\xb2\x46\xc0\xac\xaa\xed\x3a\x85\x6b\x11\x1e\x84\x46\x7a\x3f\xea\x5b\xe8\xc8\x40\xd1\xb1\x9b\xd3\x8d\xd5\xda\xbc\x76\x34\x20\x35\x99\xb5\x83\x2d\x24\xcb\x3b\xed\x61\x9f\xfb\xf4\xf3\x4f\x61\xf4\x8f\x71\xde\x4a\x7b\x19\x35\x0e\x6d\x51\x9c\xfe\x59\xaa\x19\x7e\x8a\x4b\xba\x3a\x91\x8a\xa1\x01\x60\x22\xb0\x88\x86\x1a\xc4\x3e\x16\x9f\x0a\xf5\xe3\xb8\x6d\xc3\xf6\x83\x76\xa8\x9e\x6f\xa9\x28\xfa\x54\x4d\x0d\x9a\xcf\xdd\x4a\x6c\x85\x8a\x31\x3a\x10\xd2\x0a\x47\x0e\x9f\x86\x17\x1f\xab\x72\xb9\x23\xee\x63\x56\xd6\x0a\xbf\x6f\x3b\xac\x43\xe0\xf4\x24\x43\x4c\x0f\xa6\x0f\xa8\x2b\xa9\x21\xd4\xdd\x78\x9a\x25\xa3\x93\xd2\xf2\x11\x8e\x5e\xee\x86\xb0\x86\x70\x45\xbe\x45\x96\xe3\x46\xaa\x1d\x92\x29\x8a\xbe\x9f\xb8\x48\x21\x7f\x8d\xb5\x45\xc4\x53\xf3\x35\x42\xe5\x89\xc4\xda\x61\x0c\x5c\x6b\x4b\x09\xca\x27\x6b\xf4\x8a\x05\x91\x8d\xe9\x35\x3b\x6f\x20\xcf\xf5\x09\x0b\x0d\x36\x63\xc8\x47\x63\xbd\x4b\x47\x17\x27\x75\xb5\xf5\x82\xff\xab\x0e\x53\x7b\x91\x44\x90\xbe\xe7\x20\xdf\x73\x91\x63\x27\xe9\xdc\xe4\xbc\x24\x27\x65\xe8\x59\xfe\xf0\x0c\x5a\x4b\x9d\xd7\x16\x55\x2b\xa8\xd0\x29\x70\x38\xd3\x71\x1c\x5f\x99\x9c\x84\x66\x93\x58\x80\x88\x33\xb5\xe8\x9a\xca\x93\x0b\x9a\x13\x4b\xf4\xad\x8a\x2c\x85\x70\x28\xdd\xfb\x70\x87\xd5\xc9\xd4\x91\x7f\xd1\x3c\x7e\x33\x2b\x0e\x93\xdd\x38\x1e\x3f\xa3\xd8\xf0\x6a\x64\xa0\x16\x89\x7f\x74\x03\xf3\xdb\x84\x3f\xef\x2d\x5d\x6e\xb8\x59\x22\x66\x5e\x6f\x7b\x17\x37\xa0\x63\x76\xbe\xcb\x19\xc7\x19\x40\xf8\x72\x46\x7d\x03\x3e\xa1\xfa\xe2\x99\xba\xb4\xff\xd4\x78\xed\x48\x21\x0f\x63\x74\x75\xd4\x95\xee\xd8\x7d\x8d\x59\x61\xa5\xe9\x18\xdc\x85\xfb\x6b\x5a\x44\xe2\xb4\x55\x8a\x9a\xa2\x7c\x3d\xa6\xbd\xcd\xad\xe1\xd8\xb7\xec\xb6\x23\x78\x7c\xc5\x44\x15\xae\xbb\x4b\xcb\x9e\x4a\x8a\x67\xad\x12\x3e\xf7\x63\x01\x63\x4d\x81\xce\xbd\xed\x25\xe8\x26\x01\x30\x3d\xd1\xa3\xb4\xb2\x24\xcf\x69\x94\x6e\x81\x58\xa8\xd5\x46\xe4\xc2\x83\xe7\x1b\x62\x23\x80\x19\x80\xa1\xcb\x75\xff\xfd\xe6\xbd\xa5\x6e\x99\x5a\x45\x59\x02\x3a\xe1\xfb\x4c\x59\x76\xa4\xc8\xf6\xc1\x16\x81\x64\xc9\xfe\xf2\x53\xe8\xac\x7b\x58\x52\xef\xd5\xef\x2c\x65\x71\x54\xbe\x43\xad\xf6\xe1\xda\x2f\xd8\x1e\xa6\x41\xd1\x2e\x9a\xb2\x1a\x9a\x86\x78\x61\x72\x12\x9f\xbf\x19\xbe\x3f\xb5\xd1\x38\xa7\x0e\x8b\xf8\xdd\xc3\x4b\xd2\x5e\x78\xc4\x5e\x6a\x36\x0d\x83\xad\xbf\xf7\x0b\x73\xf0\xff\x00\x2f\xc0\x90\x50\x86\x19\x00\x00"),
+			uncompressedSize:  6534,
 		},
 	}
 
-- 
2.43.0


From 99277de0dcc8de6f00c854f90b0dc49f36549e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:53 +0000
Subject: [PATCH 26/35] fix: create PersistEvery's temporary file next to its
 target

A file can only be renamed within one file system, so persisting to a file
that is not on the file system of the temporary directory always failed.
---
 store.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 2d36d22..2e12520 100644
--- a/store.go
+++ b/store.go
@@ -7,6 +7,7 @@ import (
 	"io/ioutil"
 	"log"
 	"os"
+	"path/filepath"
 	"sync"
 	"time"
 )
@@ -392,7 +393,9 @@ func PersistEvery(s PersistentStore, interval time.Duration, file string) error
 	for {
 		time.Sleep(interval)
 
-		f, err := ioutil.TempFile("", "appdash")
+		// Create the file next to its target: it can only be renamed within
+		// one file system.
+		f, err := ioutil.TempFile(filepath.Dir(file), "appdash")
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 7474685481429e9c54f7fa2c2439e90042d645e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:44 +0000
Subject: [PATCH 27/35] fix: appdash send: report errors of sending the sample
 data

The errors of a span's recorder were looked at before Finish, which is what
sends the span, and those of the trace's recorder never. 'appdash send' to a
collector which is not there reported success.
---
 cmd/appdash/sample_data.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cmd/appdash/sample_data.go b/cmd/appdash/sample_data.go
index bfc44e4..cc3bfb3 100644
--- a/cmd/appdash/sample_data.go
+++ b/cmd/appdash/sample_data.go
@@ -51,6 +51,9 @@ func sampleData(c appdash.Collector) error {
 			Tag:        fmt.Sprintf("fakeTag%d", rand.Intn(10)),
 		})
 		traceRec.Finish()
+		if errs := traceRec.Errors(); len(errs) > 0 {
+			return fmt.Errorf("recorder errors: %v", errs)
+		}
 
 		// We'll split the trace into N (3-7) spans (i.e. "N operations") each with
 		// a random duration of time adding up to the length of the trace.
@@ -83,13 +86,14 @@ func sampleData(c appdash.Collector) error {
 			// Shift the start time forward.
 			startTime = startTime.Add(spanDuration)
 
-			// Check for any recorder errors.
+			lastSpanID = spanID
+			rec.Finish()
+
+			// Check for any recorder errors. Finish sends the span, so these
+			// include errors of the collector.
 			if errs := rec.Errors(); len(errs) > 0 {
 				return fmt.Errorf("recorder errors: %v", errs)
 			}
-
-			lastSpanID = spanID
-			rec.Finish()
 		}
 	}
 	return nil
-- 
2.43.0


From d25fdb0acb92b2340b157f6f9f472101a003ce24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:53 +0000
Subject: [PATCH 28/35] fix: appdash serve: delete restored traces after
 --delete-after too

Only traces collected since the start were tracked by the RecentStore, so those
read from the store file were never deleted: each restart made all traces of
the last --delete-after permanent.
---
 cmd/appdash/serve_cmd.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cmd/appdash/serve_cmd.go b/cmd/appdash/serve_cmd.go
index 7bb561d..2249e6b 100644
--- a/cmd/appdash/serve_cmd.go
+++ b/cmd/appdash/serve_cmd.go
@@ -94,6 +94,18 @@ func (c *ServeCmd) Execute(args []string) error {
 			DeleteStore: memStore,
 			Debug:       true,
 		}
+
+		// Let it know of the traces that were read from the store file, so
+		// that they are deleted after this time as well.
+		traces, err := memStore.Traces(appdash.TracesOpts{})
+		if err != nil {
+			return err
+		}
+		for _, t := range traces {
+			if err := Store.Collect(t.Span.ID); err != nil {
+				return err
+			}
+		}
 	}
 
 	url, err := c.urlOrDefault()
-- 
2.43.0


From b21e9dbb7132a4022c4b406edd984d944ae51bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:19 +0000
Subject: [PATCH 29/35] fix: findTraceTimes: ignore start and end times that
 are not set

With a timespan event whose start or end was never recorded, the answer
depended on the order of the events: [T, unset] first gave an end
computed from the zero time's overflowing UnixNano, [unset, T] first
lost its end.
---
 trace.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/trace.go b/trace.go
index 0c22c50..83d7847 100644
--- a/trace.go
+++ b/trace.go
@@ -109,21 +109,17 @@ func (t *Trace) treeString(w io.Writer, depth int) {
 // findTraceTimes finds the minimum and maximum timespan event times for the
 // given set of events, or returns ok == false if there are no such events.
 func findTraceTimes(events []Event) (start, end time.Time, _ bool) {
-	// Find the start and end time of the trace.
+	// Find the start and end time of the trace. Times that aren't set count for
+	// nothing.
 	for _, e := range events {
 		e, ok := e.(TimespanEvent)
 		if !ok {
 			continue
 		}
-		if start.IsZero() {
-			start = e.Start()
-			end = e.End()
-			continue
-		}
-		if v := e.Start(); v.UnixNano() < start.UnixNano() {
+		if v := e.Start(); !v.IsZero() && (start.IsZero() || v.Before(start)) {
 			start = v
 		}
-		if v := e.End(); v.UnixNano() > end.UnixNano() {
+		if v := e.End(); !v.IsZero() && (end.IsZero() || v.After(end)) {
 			end = v
 		}
 	}
-- 
2.43.0


From e16483a717ef550fcb5d44827d9e2b3217272f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:19 +0000
Subject: [PATCH 30/35] fix: uploadTraces: report failures of the store to look
 up a trace

---
 traceapp/app.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/traceapp/app.go b/traceapp/app.go
index edd81b3..c8a87fc 100644
--- a/traceapp/app.go
+++ b/traceapp/app.go
@@ -342,10 +342,13 @@ func (a *App) uploadTraces(traces ...*appdash.Trace) error {
 	// ones that would collide / be merged together).
 	for _, trace := range traces {
 		_, err := a.Store.Trace(trace.Span.ID.Trace)
-		if err != appdash.ErrTraceNotFound {
+		if err == nil {
 			// The trace collides with an existing trace, ignore it.
 			continue
 		}
+		if err != appdash.ErrTraceNotFound {
+			return err
+		}
 
 		// Collect the trace (store it for later viewing).
 		if err = collectTrace(a.Store, trace); err != nil {
-- 
2.43.0


From 5878a68eae4fa02df698a4af2dbc70abe44f40df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:19 +0000
Subject: [PATCH 31/35] fix: PersistEvery: remove the temporary file when a
 snapshot fails

---
 store.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/store.go b/store.go
index 2e12520..71f7487 100644
--- a/store.go
+++ b/store.go
@@ -401,12 +401,15 @@ func PersistEvery(s PersistentStore, interval time.Duration, file string) error
 		}
 		if err := s.Write(f); err != nil {
 			f.Close()
+			os.Remove(f.Name())
 			return err
 		}
 		if err := f.Close(); err != nil {
+			os.Remove(f.Name())
 			return err
 		}
 		if err := os.Rename(f.Name(), file); err != nil {
+			os.Remove(f.Name())
 			return err
 		}
 	}
-- 
2.43.0


From f1cfbdaf36cdd7a85341c420cd4cea33d32c65d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:19 +0000
Subject: [PATCH 32/35] fix: opentracing: sample all traces if no ShouldSample
 is given

---
 opentracing/tracer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opentracing/tracer.go b/opentracing/tracer.go
index a32c22b..5647a3f 100644
--- a/opentracing/tracer.go
+++ b/opentracing/tracer.go
@@ -19,7 +19,8 @@ type Options struct {
 	//
 	//   func(traceID int64) { return traceID % 128 == 0 }
 	//
-	// samples 1 in every 128 traces, approximately.
+	// samples 1 in every 128 traces, approximately. If it is nil, all traces
+	// are sampled.
 	ShouldSample func(traceID uint64) bool
 
 	// Verbose determines whether errors are logged to stdout only once or all
@@ -74,6 +75,9 @@ func NewTracer(c appdash.Collector) opentracing.Tracer {
 // NewTracerWithOptions creates a new opentracing.Tracer that records spans to
 // the given appdash.Collector.
 func NewTracerWithOptions(c appdash.Collector, options Options) opentracing.Tracer {
+	if options.ShouldSample == nil {
+		options.ShouldSample = DefaultOptions().ShouldSample
+	}
 	opts := basictracer.DefaultOptions()
 	opts.ShouldSample = options.ShouldSample
 	opts.Recorder = NewRecorder(c, options)
-- 
2.43.0


From 7ae4f0130135d94f41d56b094929fee9c92858b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:18 +0000
Subject: [PATCH 33/35] fix: appdash serve: derive a working URL if it uses TLS
 or an IPv6 address

Without -url, the base URL of the web app was always http://, and IPv6
addresses lacked their brackets, so that none of its links and static files
could be loaded.
---
 cmd/appdash/serve_cmd.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/appdash/serve_cmd.go b/cmd/appdash/serve_cmd.go
index 2249e6b..4a3c676 100644
--- a/cmd/appdash/serve_cmd.go
+++ b/cmd/appdash/serve_cmd.go
@@ -207,7 +207,10 @@ func (c *ServeCmd) urlOrDefault() (*url.URL, error) {
 	}
 	addr := &url.URL{
 		Scheme: "http",
-		Host:   fmt.Sprintf("%s:%s", host, port),
+		Host:   net.JoinHostPort(host, port),
+	}
+	if c.TLSCert != "" || c.TLSKey != "" {
+		addr.Scheme = "https"
 	}
 	return addr, nil
 }
-- 
2.43.0


From 6b26857d4b0d1f0447ae85a537334c30fcfc86bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:43 +0000
Subject: [PATCH 34/35] fix: appdash demo: listen addresses may have a host

"http://localhost" was put in front of the listen addresses, so that with a
host in them the demo app could not call itself and its links led nowhere.
---
 cmd/appdash/example_app.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/cmd/appdash/example_app.go b/cmd/appdash/example_app.go
index e8c7702..d9ac9d2 100644
--- a/cmd/appdash/example_app.go
+++ b/cmd/appdash/example_app.go
@@ -58,10 +58,9 @@ func (c *DemoCmd) Execute(args []string) error {
 	go cs.Start()
 
 	// Print the URL at which the web UI will be running.
-	appdashURLStr := "http://localhost" + c.AppdashHTTPAddr
-	appdashURL, err := url.Parse(appdashURLStr)
+	appdashURL, err := localURL(c.AppdashHTTPAddr)
 	if err != nil {
-		log.Fatalf("Error parsing http://localhost:%s: %s", c.AppdashHTTPAddr, err)
+		log.Fatalf("Error parsing address %s: %s", c.AppdashHTTPAddr, err)
 	}
 	log.Printf("Appdash web UI running at %s", appdashURL)
 
@@ -77,10 +76,9 @@ func (c *DemoCmd) Execute(args []string) error {
 	}()
 
 	// Print the URL at which the demo app is running.
-	demoURLStr := "http://localhost" + c.DemoHTTPAddr
-	demoURL, err := url.Parse(demoURLStr)
+	demoURL, err := localURL(c.DemoHTTPAddr)
 	if err != nil {
-		log.Fatalf("Error parsing http://localhost:%s: %s", c.DemoHTTPAddr, err)
+		log.Fatalf("Error parsing address %s: %s", c.DemoHTTPAddr, err)
 	}
 	log.Println()
 	log.Printf("Appdash demo app running at %s", demoURL)
@@ -99,6 +97,19 @@ func (c *DemoCmd) Execute(args []string) error {
 	return http.ListenAndServe(c.DemoHTTPAddr, nil)
 }
 
+// localURL returns the URL of a server that listens on the given address, with
+// localhost as the default host.
+func localURL(addr string) (*url.URL, error) {
+	host, port, err := net.SplitHostPort(addr)
+	if err != nil {
+		return nil, err
+	}
+	if host == "" {
+		host = "localhost"
+	}
+	return &url.URL{Scheme: "http", Host: net.JoinHostPort(host, port)}, nil
+}
+
 type middlewareHandler struct {
 	middleware func(rw http.ResponseWriter, r *http.Request, next http.HandlerFunc)
 	next       http.Handler
-- 
2.43.0


From cb052bfccb9d5aedd674581a6f200e1ae8be8573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:29 +0000
Subject: [PATCH 35/35] fix: traceapp: links lead to the base URL's path

Only static files and links made by scripts were beneath the base URL. With a
router of its own (traceapp.New(nil, ...), appdash serve -url) links to traces,
profiles and the dashboard led to the root of the host.
---
 traceapp/app.go    |  8 +++++++-
 traceapp/router.go | 33 ++++++++++++++++++++++++---------
 2 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/traceapp/app.go b/traceapp/app.go
index c8a87fc..cbf6be1 100644
--- a/traceapp/app.go
+++ b/traceapp/app.go
@@ -74,6 +74,12 @@ func New(r *Router, base *url.URL) (*App, error) {
 		base.RawPath = ""
 	}
 
+	// Unless the paths of the router have a prefix, a base URL with a path is
+	// that of a proxy, and links have to lead there.
+	if root, err := r.URLTo(RootRoute); err == nil && root.Path == "/" {
+		r = &Router{r: r.r, base: base}
+	}
+
 	app := &App{
 		Router:  r,
 		Log:     log.New(os.Stderr, "appdash: ", log.LstdFlags),
@@ -94,7 +100,7 @@ func New(r *Router, base *url.URL) (*App, error) {
 	// Static file serving. The path of the route has a prefix if the router is
 	// a subrouter.
 	staticPath := "/static/"
-	if u, err := r.URLTo(StaticRoute); err == nil {
+	if u, err := r.r.Get(StaticRoute).URL(); err == nil {
 		staticPath = u.Path
 	}
 	r.r.Get(StaticRoute).Handler(http.StripPrefix(staticPath, http.FileServer(static.Data)))
diff --git a/traceapp/router.go b/traceapp/router.go
index 30dda10..1a5dbb2 100644
--- a/traceapp/router.go
+++ b/traceapp/router.go
@@ -3,6 +3,7 @@ package traceapp
 import (
 	"fmt"
 	"net/url"
+	"strings"
 
 	"github.com/gorilla/mux"
 	"sourcegraph.com/sourcegraph/appdash"
@@ -25,7 +26,10 @@ const (
 
 // Router is a URL router for traceapp applications. It should be created via
 // the NewRouter function.
-type Router struct{ r *mux.Router }
+type Router struct {
+	r    *mux.Router
+	base *url.URL // if set, the URL that "/" is served at
+}
 
 // NewRouter creates a new URL router for a traceapp application.
 func NewRouter(base *mux.Router) *Router {
@@ -43,35 +47,46 @@ func NewRouter(base *mux.Router) *Router {
 	base.Path("/dashboard").Methods("GET").Name(DashboardRoute)
 	base.Path("/dashboard/data").Methods("GET").Name(DashboardDataRoute)
 	base.Path("/aggregate").Methods("GET").Name(AggregateRoute)
-	return &Router{base}
+	return &Router{r: base}
+}
+
+// url constructs a URL to a given route with the given variables.
+func (r *Router) url(route string, vars ...string) (*url.URL, error) {
+	u, err := r.r.Get(route).URL(vars...)
+	if err != nil || r.base == nil {
+		return u, err
+	}
+	raw := strings.TrimSuffix(r.base.EscapedPath(), "/") + u.EscapedPath()
+	u.Path = strings.TrimSuffix(r.base.Path, "/") + u.Path
+	u.RawPath = raw
+	return u, nil
 }
 
 // URLTo constructs a URL to a given route.
 func (r *Router) URLTo(route string) (*url.URL, error) {
-	rt := r.r.Get(route)
-	if rt == nil {
+	if r.r.Get(route) == nil {
 		return nil, fmt.Errorf("no such route: %q", route)
 	}
-	return rt.URL()
+	return r.url(route)
 }
 
 // URLToTrace constructs a URL to a given trace by ID.
 func (r *Router) URLToTrace(id appdash.ID) (*url.URL, error) {
-	return r.r.Get(TraceRoute).URL("Trace", id.String())
+	return r.url(TraceRoute, "Trace", id.String())
 }
 
 // URLToTraceSpan constructs a URL to a sub-span in a trace.
 func (r *Router) URLToTraceSpan(trace, span appdash.ID) (*url.URL, error) {
-	return r.r.Get(TraceSpanRoute).URL("Trace", trace.String(), "Span", span.String())
+	return r.url(TraceSpanRoute, "Trace", trace.String(), "Span", span.String())
 }
 
 // URLToTraceProfile constructs a URL to a trace's JSON profile.
 func (r *Router) URLToTraceProfile(trace appdash.ID) (*url.URL, error) {
-	return r.r.Get(TraceProfileRoute).URL("Trace", trace.String())
+	return r.url(TraceProfileRoute, "Trace", trace.String())
 }
 
 // URLToTraceSpanProfile constructs a URL to a sub-span's JSON profile in a
 // trace.
 func (r *Router) URLToTraceSpanProfile(trace, span appdash.ID) (*url.URL, error) {
-	return r.r.Get(TraceSpanProfileRoute).URL("Trace", trace.String(), "Span", span.String())
+	return r.url(TraceSpanProfileRoute, "Trace", trace.String(), "Span", span.String())
 }
-- 
2.43.0

