From d797f50188e688a8b8a06c2a7158a16322465976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:05 +0000
Subject: [PATCH 01/29] fix: reload the page while waiting for the last push to
 complete

A writer that was suspended after loading the page and lapped by other
writers compared a slot with a state that is not current any more, and
waited forever.
---
 src/atomic_compat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index 5d6797c..3cb2377 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -244,11 +244,11 @@ union page_t {
       fail = false;                                                            \
     }                                                                          \
                                                                                \
+  /* give a chance to complete the last push if it is not ready yet */         \
+  complete:                                                                    \
     current_page_content = (page_t)std::atomic_load(&buffer.page);             \
     new_page_content = current_page_content;                                   \
                                                                                \
-  /* give a chance to complete the last push if it is not ready yet */         \
-  complete:                                                                    \
     buffer.read(evt, ((state_t *)current_page_content.stateref)->pos);         \
     DEBUGV("%lu\n", ((state_t *)current_page_content.stateref)->pos);          \
     if (!(((state_t *)current_page_content.stateref)->event == evt)) {         \
-- 
2.43.0


From 82d5379822e7125b93801e2c9effb9fb446958a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:05 +0000
Subject: [PATCH 02/29] fix: give each writer a second state of its own

Every writer whose own state was published prepared its next push in the
buffer's state; two of them could do it at once, and the state published
by one was overwritten by the other: pushes were lost, and events were
stored in the wrong slot.
---
 src/atomic_compat.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index 3cb2377..2d93cc0 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -230,7 +230,7 @@ union page_t {
 
 #define ATOMIC_PAGE_SWAP()                                                     \
   typedef typename B::state_t state_t;                                         \
-  state_t state;                                                               \
+  state_t state, state_spare;                                                  \
   state_t *stateref = &state;
 
 #define ATOMIC_PUSH(body)                                                      \
@@ -258,8 +258,9 @@ union page_t {
     }                                                                          \
                                                                                \
     if (&state == (state_t *)current_page_content.stateref) {                  \
-      /* current state is in use; use buffer state */                          \
-      stateref = (state_t *)&buffer.state_global;                              \
+      /* current state is in use; use the spare one (a state shared by all     \
+         the writers can be published by one while another prepares it) */     \
+      stateref = (state_t *)&state_spare;                                      \
     } else {                                                                   \
       /* use current state */                                                  \
       stateref = (state_t *)&state;                                            \
-- 
2.43.0


From 6fc0d247df7a5015cd3f93090cde579e8b64c73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:26 +0000
Subject: [PATCH 03/29] fix: read the state of the buffer as one snapshot

bottom, top and the timestamps were read one by one while writers replace
them; length() could exceed the capacity.
---
 src/atomic_compat.h  | 11 ++++++++---
 src/circularbuffer.h | 15 +++++++++++----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index 2d93cc0..f3991ec 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -218,9 +218,14 @@ union page_t {
 #define _top() ((state_t *)(((page_t)std::atomic_load(&page)).stateref))->top
 
 #define ATOMIC_TRIPLE(b, t)                                                    \
-  state_t *s = ((state_t *)(((page_t)std::atomic_load(&page)).stateref));      \
-  b = s->bottom;                                                               \
-  t = s->top;
+  page_t current;                                                              \
+  do {                                                                         \
+    current = (page_t)std::atomic_load(&page);                                 \
+    b = ((state_t *)current.stateref)->bottom;                                 \
+    t = ((state_t *)current.stateref)->top;                                    \
+    /* a state that is not published any more can be changed by its writer */  \
+  } while (current.wide_uniqueid !=                                            \
+           ((page_t)std::atomic_load(&page)).wide_uniqueid);
 
 #define ATOMIC_PAGE()                                                          \
   state_t state_global = {                                                     \
diff --git a/src/circularbuffer.h b/src/circularbuffer.h
index 636de15..e6d4d17 100644
--- a/src/circularbuffer.h
+++ b/src/circularbuffer.h
@@ -257,10 +257,17 @@ template <typename T, size_t N>
 typename RTML_buffer<T, N>::error_t
 RTML_buffer<T, N>::state(size_t &b, size_t &t, timespanw &ts,
                          timespanw &ts_t) const {
-  state(b, t);
-
-  ts = array[b].getTime();
-  ts_t = array[t].getTime();
+  size_t cb, ct;
+  state(cb, ct);
+
+  do {
+    b = cb;
+    t = ct;
+    ts = array[b].getTime();
+    ts_t = array[t].getTime();
+    // the timestamps belong to this state only if it is still the current one
+    state(cb, ct);
+  } while (b != cb || t != ct);
 
   DEBUGV3("timestamp=[0x%x,0x%x] b=0x%x t=0x%x\n", L(ts >> 32), L(ts), b, t);
 
-- 
2.43.0


From a6fad49cf2f61401cf4918d3e1316e2da0608a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:37 +0000
Subject: [PATCH 04/29] fix: a buffer assigned from another one no longer
 shares its state

The bitwise copy kept the page of the original buffer: operations on the
copy changed the state of the original and the other way round.
---
 src/atomic_compat.h  | 10 ++++++++++
 src/circularbuffer.h |  1 +
 2 files changed, 11 insertions(+)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index f3991ec..7ed8c14 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -60,6 +60,8 @@ typedef unsigned int uint32_t;
   b = _bottom();                                                               \
   t = _top();
 
+#define ATOMIC_ADOPT()
+
 /* Software */
 #elif defined(__riscv) || defined(__arm__) || defined(__i386__) ||             \
     defined(__x86_64__)
@@ -233,6 +235,14 @@ union page_t {
   std::atomic<page_t> page =                                                   \
       ATOMIC_VAR_INIT({(NATIVE_POINTER_TYPE)&state_global})
 
+/* after a bitwise copy the page refers to the state of the original buffer;
+   take that state over */
+#define ATOMIC_ADOPT()                                                         \
+  page_t current = (page_t)std::atomic_load(&page);                            \
+  state_global = *(state_t *)current.stateref;                                 \
+  current.stateref = (NATIVE_POINTER_TYPE)&state_global;                       \
+  std::atomic_store(&page, current);
+
 #define ATOMIC_PAGE_SWAP()                                                     \
   typedef typename B::state_t state_t;                                         \
   state_t state, state_spare;                                                  \
diff --git a/src/circularbuffer.h b/src/circularbuffer.h
index e6d4d17..13869e1 100644
--- a/src/circularbuffer.h
+++ b/src/circularbuffer.h
@@ -304,6 +304,7 @@ template <typename T, size_t N> void RTML_buffer<T, N>::debug() const {
 template <typename T, size_t N>
 RTML_buffer<T, N> &RTML_buffer<T, N>::operator=(const RTML_buffer<T, N> &rhs) {
   MEMCPY(this, &rhs, sizeof(rhs));
+  ATOMIC_ADOPT();
   return *this;
 }
 
-- 
2.43.0


From 04b20fa7c537571343b24a8d5dc1a28c692014e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:37 +0000
Subject: [PATCH 05/29] fix: debug() reads only the elements the buffer has

---
 src/circularbuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/circularbuffer.h b/src/circularbuffer.h
index 13869e1..50707b3 100644
--- a/src/circularbuffer.h
+++ b/src/circularbuffer.h
@@ -291,7 +291,7 @@ template <typename T, size_t N> void RTML_buffer<T, N>::debug() const {
 
   DEBUGV3("[CONTENT]\n");
   DEBUGV3("----------\n");
-  for (unsigned int idx = 0; idx < size + 2; idx++) {
+  for (unsigned int idx = 0; idx < N + 2; idx++) {
     if (idx % 2 == 0)
       DEBUGV3_APPEND("\n");
     array[idx].debug();
-- 
2.43.0


From bc280cd67115d841bd6d57aac219bb3275ec3f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:56 +0000
Subject: [PATCH 06/29] fix: a writer hands its state back to the buffer when
 it is destroyed

The page of the buffer went on pointing into the writer, so every later
operation on the buffer used a destroyed object.
---
 src/atomic_compat.h | 22 +++++++++++++++++++++-
 src/writer.h        |  7 +++++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index 7ed8c14..815b266 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -61,6 +61,7 @@ typedef unsigned int uint32_t;
   t = _top();
 
 #define ATOMIC_ADOPT()
+#define ATOMIC_RELEASE()
 
 /* Software */
 #elif defined(__riscv) || defined(__arm__) || defined(__i386__) ||             \
@@ -233,7 +234,8 @@ union page_t {
   state_t state_global = {                                                     \
       .top = 0, .bottom = 0, .pos = 0, .event = event_t()};                    \
   std::atomic<page_t> page =                                                   \
-      ATOMIC_VAR_INIT({(NATIVE_POINTER_TYPE)&state_global})
+      ATOMIC_VAR_INIT({(NATIVE_POINTER_TYPE)&state_global});                   \
+  std::atomic_flag release = ATOMIC_FLAG_INIT
 
 /* after a bitwise copy the page refers to the state of the original buffer;
    take that state over */
@@ -243,6 +245,24 @@ union page_t {
   current.stateref = (NATIVE_POINTER_TYPE)&state_global;                       \
   std::atomic_store(&page, current);
 
+/* hand the published state over to the buffer before the writer that owns it
+   goes away; only one writer at a time may fill the state of the buffer */
+#define ATOMIC_RELEASE()                                                       \
+  page_t current_page_content, new_page_content;                               \
+  while (buffer.release.test_and_set())                                        \
+    YIELD();                                                                   \
+  do {                                                                         \
+    current_page_content = (page_t)std::atomic_load(&buffer.page);             \
+    if ((state_t *)current_page_content.stateref != &state &&                  \
+        (state_t *)current_page_content.stateref != &state_spare)              \
+      break;                                                                   \
+    buffer.state_global = *(state_t *)current_page_content.stateref;           \
+    stateref = &buffer.state_global;                                           \
+    new_page_content = current_page_content;                                   \
+  } while (!std::atomic_compare_exchange_strong(                               \
+      &buffer.page, &current_page_content, (update(new_page_content))));       \
+  buffer.release.clear();
+
 #define ATOMIC_PAGE_SWAP()                                                     \
   typedef typename B::state_t state_t;                                         \
   state_t state, state_spare;                                                  \
diff --git a/src/writer.h b/src/writer.h
index 3ad6ffa..c71f95e 100644
--- a/src/writer.h
+++ b/src/writer.h
@@ -75,6 +75,11 @@ public:
    */
   RTML_writer(B &buffer);
 
+  /**
+   * Leaves the buffer, which can go on being used.
+   */
+  ~RTML_writer();
+
   /**
    * push an event to the Buffer.
    *
@@ -95,6 +100,8 @@ RTML_writer<B>::RTML_writer(B &_buffer) : buffer(_buffer) {
   buffer.increment_writer();
 }
 
+template <typename B> RTML_writer<B>::~RTML_writer() { ATOMIC_RELEASE(); }
+
 template <typename B>
 typename B::error_t RTML_writer<B>::push(typename B::event_t &event) {
 
-- 
2.43.0


From 6723c7785b82f45b7b2b4c58036c89f8fb4e83e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:52 +0000
Subject: [PATCH 07/29] fix: a reader does not deliver events that have been
 replaced

pull() took the timestamp of whatever it found in the next slot as the one
to expect, and only then looked for a gap: overwritten, half written and
not yet stored events were returned as AVAILABLE, out of order.
---
 src/reader.h | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/reader.h b/src/reader.h
index f2320c6..95d6694 100644
--- a/src/reader.h
+++ b/src/reader.h
@@ -165,24 +165,27 @@ RTML_reader<B>::pull(typename B::event_t &event) {
     if (buffer.read(event, bottom) != buffer.OK)
       return READ_ERROR;
 
+    // use last known timestamp (delta bigger than one may help to find the
+    // right timestamp)
+    if (buffer.read(event_next,
+                    bottom + 1 >= buffer.size ? 0 : bottom + 1) != buffer.OK)
+      return READ_ERROR;
+
+    // what has been read counts only if it was not being replaced meanwhile
+    if (gap())
+      return READER_OVERFLOW;
+
+    // the next event is not there yet, its timestamp is from an older one
+    if (event_next.getTime() < event.getTime())
+      return UNAVAILABLE;
+
     // update local bottom
     increment_reader_bottom();
+    timestamp = event_next.getTime();
 
     DEBUGV3("pull-> length=%lu bottom=%lu top=%lu\n", length(), bottom, top);
 
-    // use last known timestamp (delta bigger than one may help to find the
-    // right timestamp)
-    if (buffer.read(event_next, bottom) == buffer.OK) {
-      timestamp = event_next.getTime();
-
-      if (gap())
-        return READER_OVERFLOW;
-      else
-        return AVAILABLE;
-    } else {
-      decrement_reader_bottom();
-      return READ_ERROR;
-    }
+    return AVAILABLE;
   }
 
   return UNAVAILABLE;
@@ -276,8 +279,14 @@ typename RTML_reader<B>::gap_error_t RTML_reader<B>::synchronize() {
 template <typename B>
 typename RTML_reader<B>::gap_error_t RTML_reader<B>::gap() const {
   typename B::event_t event;
+  size_t b, t;
+
+  // detect a gap; the slot at bottom may have been taken by an event that is
+  // not stored yet, and then less is left in front of the reader than it expects
+  buffer.state(b, t);
+  if (length() > (t >= bottom ? t - bottom : buffer.size - (bottom - t)))
+    return GAP;
 
-  // detect a gap
   if (buffer.read(event, bottom) == buffer.OK) {
     if (timestamp < event.getTime())
       return GAP;
-- 
2.43.0


From d476068797eb13b590c2a1780b21da993834a44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:52 +0000
Subject: [PATCH 08/29] fix: synchronize() decides by what is left in the
 buffer

It reported gaps where nothing was lost, kept a position the buffer had
already left, and missed the loss of exactly one lap.
---
 src/reader.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/reader.h b/src/reader.h
index 95d6694..d95ecc3 100644
--- a/src/reader.h
+++ b/src/reader.h
@@ -229,7 +229,7 @@ typename RTML_reader<B>::gap_error_t RTML_reader<B>::synchronize() {
   if (t < b) {
     DEBUGV("1-> t < b (with overlap)\n");
     
-    if (gap() == GAP) {
+    if ((bottom >= t && bottom < b) || gap() == GAP) {
       DEBUGV("gap!\n");
       top = t;
       bottom = b;
@@ -243,7 +243,7 @@ typename RTML_reader<B>::gap_error_t RTML_reader<B>::synchronize() {
 
   } else if (b < t) {
     DEBUGV("2-> b < t (without overlap)\n");
-    if (ts < timestamp && timestamp < ts_t) {
+    if (b <= bottom && bottom < t && gap() == NO_GAP) {
       // update top (no gap found)
       top = t;
 
@@ -251,8 +251,8 @@ typename RTML_reader<B>::gap_error_t RTML_reader<B>::synchronize() {
     } else {
       // reader is out of sync
       top = t;
-      bottom = (b < bottom && b < t) ? bottom : b;
-      timestamp = (b < bottom && b < t) ? timestamp : ts;
+      bottom = b;
+      timestamp = ts;
 
       return GAP; // HARD_SYNC
     }
-- 
2.43.0


From fa5d1aacc2f61e5259aaa73caa861bd7460022f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:51 +0000
Subject: [PATCH 09/29] fix: read_previous() at the wrap of the ring

cursor is unsigned, so cursor - 1 < 0 is never true and the event before
position 0 was read out of bounds.
---
 src/rmtld3/reader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rmtld3/reader.h b/src/rmtld3/reader.h
index 876dc9c..1492f13 100644
--- a/src/rmtld3/reader.h
+++ b/src/rmtld3/reader.h
@@ -251,7 +251,7 @@ RMTLD3_reader<R, P>::read_previous(typename R::buffer_t::event_t &e) {
                 R::length());
   return ((consumed() > 0 &&
            cursor != R::bottom && // [TODO: check this: !(cursor == R::bottom)]
-           (R::buffer.read(e, ((cursor - 1) < 0) ? R::buffer.size - 1
+           (R::buffer.read(e, (cursor == 0) ? R::buffer.size - 1
                                                  : cursor - 1)) ==
                R::buffer.OK))
              ? R::AVAILABLE
-- 
2.43.0


From 9752e2ae1884f4f8f13b58b8de83830642345896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:51 +0000
Subject: [PATCH 10/29] fix: set(t) going backward leaves the cursor on the
 event in force at t

It stopped one event later than going forward does.
---
 src/rmtld3/formulas.h | 1 -
 src/rmtld3/reader.h   | 3 ++-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index 66dde65..6f928ad 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -141,7 +141,6 @@ three_valued_type until_less(T &trace, timespan &t) {
 
           size_t store_cursor2 = trace.get_cursor();
           trace.set(t3);
-          trace.decrement_cursor();
           symbol = eval_b(trace, t3, symbol);
           trace.set_cursor(store_cursor2);
         };
diff --git a/src/rmtld3/reader.h b/src/rmtld3/reader.h
index 1492f13..7f3b338 100644
--- a/src/rmtld3/reader.h
+++ b/src/rmtld3/reader.h
@@ -131,11 +131,12 @@ typename R::error_t RMTLD3_reader<R, P>::set(timespan &t) {
 
     DEBUGV_RMTLD3("--- %lu %lu\n", e.getTime(), ee.getTime());
 
+    decrement_cursor();
+
     if (e.getTime() <= t && t < ee.getTime()) {
       return R::AVAILABLE;
     }
 
-    decrement_cursor();
     DEBUGV_RMTLD3("backward cursor=%d\n", cursor);
   }
 
-- 
2.43.0


From b32a51d9ecd904dad5102f6dbfd5483f733e149d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:51 +0000
Subject: [PATCH 11/29] fix: parenthesise the three-valued connectives

Nested, as in b3_or(b3_and(x, y), z), or compared with a value they were
grouped by operator precedence and gave a wrong truth value.
---
 src/rmtld3/rmtld3.h | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/rmtld3/rmtld3.h b/src/rmtld3/rmtld3.h
index 340175c..c9e4963 100644
--- a/src/rmtld3/rmtld3.h
+++ b/src/rmtld3/rmtld3.h
@@ -45,32 +45,33 @@ inline duration mult_dur(const duration &lhs, const duration &rhs) {
 
 // type conversion from three_valued_type to four_valued_type
 #define b3_to_b4(b3)                                                           \
-  (b3 == T_TRUE) ? FV_TRUE : ((b3 == T_FALSE) ? FV_FALSE : FV_UNKNOWN)
+  (((b3) == T_TRUE) ? FV_TRUE : (((b3) == T_FALSE) ? FV_FALSE : FV_UNKNOWN))
 
 // convert four_valued_type into three_valued type
 #define b4_to_b3(b4)                                                           \
-  (b4 == FV_TRUE) ? T_TRUE : ((b4 == FV_FALSE) ? T_FALSE : T_UNKNOWN)
+  (((b4) == FV_TRUE) ? T_TRUE : (((b4) == FV_FALSE) ? T_FALSE : T_UNKNOWN))
 
 /** OR */
 #define b3_or(b31, b32)                                                        \
-  (b31 == T_TRUE || b32 == T_TRUE)                                             \
+  (((b31) == T_TRUE || (b32) == T_TRUE)                                        \
       ? T_TRUE                                                                 \
-      : ((b31 == T_FALSE && b32 == T_FALSE) ? T_FALSE : T_UNKNOWN)
+      : (((b31) == T_FALSE && (b32) == T_FALSE) ? T_FALSE : T_UNKNOWN))
 
 /** AND */
 #define b3_and(b31, b32)                                                       \
-  (b31 == T_TRUE && b32 == T_TRUE)                                             \
+  (((b31) == T_TRUE && (b32) == T_TRUE)                                        \
       ? T_TRUE                                                                 \
-      : ((b31 == T_FALSE || b32 == T_FALSE) ? T_FALSE : T_UNKNOWN)
+      : (((b31) == T_FALSE || (b32) == T_FALSE) ? T_FALSE : T_UNKNOWN))
 
 /** NOT */
 #define b3_not(b3)                                                             \
-  ((b3 == T_TRUE) ? T_FALSE : ((b3 == T_FALSE) ? T_TRUE : T_UNKNOWN))
+  (((b3) == T_TRUE) ? T_FALSE : (((b3) == T_FALSE) ? T_TRUE : T_UNKNOWN))
 
 /** Relation operator < */
 #define b3_lessthan(n1, n2)                                                    \
-  ((n1.second || n2.second) ? T_UNKNOWN                                        \
-                            : ((n1.first < n2.first) ? T_TRUE : T_FALSE))
+  (((n1).second || (n2).second)                                                \
+       ? T_UNKNOWN                                                             \
+       : (((n1).first < (n2).first) ? T_TRUE : T_FALSE))
 
 #define ASSERT_RMTLD3(l) assert(l)
 
@@ -127,13 +128,13 @@ static int r = 0;
 #endif
 
 #define out_p(res)                                                             \
-  (res == T_TRUE) ? "true" : ((res == T_FALSE) ? "false" : "unknown")
+  (((res) == T_TRUE) ? "true" : (((res) == T_FALSE) ? "false" : "unknown"))
 
 #define out_fv(fv)                                                             \
-  (fv == FV_TRUE)                                                              \
-      ? "true"                                                                 \
-      : ((fv == FV_FALSE) ? "false"                                            \
-                          : ((fv == FV_UNKNOWN) ? "unknown" : "symbol"))
+  (((fv) == FV_TRUE)                                                           \
+       ? "true"                                                                \
+       : (((fv) == FV_FALSE) ? "false"                                         \
+                             : (((fv) == FV_UNKNOWN) ? "unknown" : "symbol")))
 
 extern int count_until_iterations;
 
-- 
2.43.0


From fc9d80e2f1443aab940f4552e54b77c278d20606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:51 +0000
Subject: [PATCH 12/29] fix: duration of a window that lies between two events

The upper end was not looked for in the interval that holds the lower one,
so everything up to the end of the trace was added.
---
 src/rmtld3/terms.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rmtld3/terms.h b/src/rmtld3/terms.h
index 9991fc8..1cac16a 100644
--- a/src/rmtld3/terms.h
+++ b/src/rmtld3/terms.h
@@ -58,10 +58,15 @@ duration duration_term(T &trace, timespan &t) {
 
     // find lower condition
     if (c_time_prev <= t && t < c_time) {
-      acc.first = (c_time - t) * symbol.first;
+      // the window may also end before the next event
+      bool upper = t + t_upper < c_time;
+      acc.first = ((upper ? t + t_upper : c_time) - t) * symbol.first;
       acc.second = symbol.second;
 
       DEBUGV_RMTLD3("dur lower(%ld)\n", c_time_prev);
+
+      if (upper)
+        break;
     }
     // find upper condition
     else if (c_time_prev <= t + t_upper && t + t_upper < c_time) {
-- 
2.43.0


From 5b9a3a8e00a58552dc2c55630d0b7ee55b009c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:51 +0000
Subject: [PATCH 13/29] fix: an unbounded eventually is never false on a finite
 trace

---
 src/rmtld3/formulas.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index 6f928ad..62e7648 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -244,8 +244,10 @@ three_valued_type eventually_less_unbounded(T &trace, timespan &t) {
     if (symbol != T_FALSE)
       break;
 
-    if (trace.pull(event) != trace.AVAILABLE)
+    if (trace.pull(event) != trace.AVAILABLE) {
+      symbol = T_UNKNOWN; // more symbols may come
       break;
+    }
   };
 
   trace.set_cursor(c_eventually); // reset the cursor changes during the
-- 
2.43.0


From 5ab90678f7302fcbd3eea0e7818271835c8ce0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:51 +0000
Subject: [PATCH 14/29] fix: eventually_equal concludes only when the trace
 reaches t + b

The value at the last event was returned although an event before t + b
may still come.
---
 src/rmtld3/formulas.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index 62e7648..90f1429 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -184,6 +184,7 @@ three_valued_type eventually_equal(T &trace, timespan &t) {
   timespan c_time = t;
   typename T::buffer_t::event_t event;
   three_valued_type symbol = T_UNKNOWN;
+  bool enough = false;
 
   size_t c_eventually = trace.get_cursor();
 
@@ -193,8 +194,10 @@ three_valued_type eventually_equal(T &trace, timespan &t) {
     trace.read(event);
     c_time = event.getTime();
 
-    if (c_time > b + t)
+    if (c_time > b + t) {
+      enough = true;
       break;
+    }
 
     size_t c = trace.get_cursor();
     DEBUGV_RMTLD3("$compute phi\n");
@@ -209,7 +212,8 @@ three_valued_type eventually_equal(T &trace, timespan &t) {
   trace.set_cursor(c_eventually); // reset the cursor changes during the
                                   // evaluation of the subformula
 
-  return symbol;
+  // without a later event the symbol in force at t + b is not settled
+  return enough ? symbol : T_UNKNOWN;
 }
 
 /**
-- 
2.43.0


From 4d4ad555819d0071c5d8f3c3403a9b0221e03834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:51 +0000
Subject: [PATCH 15/29] fix: since_less is unknown when the history does not
 cover the window

The comparison was the wrong way round: it was false with too little
history, and unknown with enough of it.
---
 src/rmtld3/formulas.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index 90f1429..d8148fb 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -391,7 +391,7 @@ three_valued_type since_less(T &trace, timespan &t) {
                              // of the subformula
 
   return (eval_c.first == FV_SYMBOL)
-             ? ((eval_c.second < t - b) ? T_UNKNOWN : T_FALSE)
+             ? ((eval_c.second + b > t) ? T_UNKNOWN : T_FALSE)
              : b4_to_b3(eval_c.first);
 }
 
-- 
2.43.0


From e522d102605403260e468882367ea145f2de0653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:24 +0000
Subject: [PATCH 16/29] fix: pasteventually_equal evaluates the event in force
 at t - b

It stopped just before that event and returned the value at the one after
it, also when the history does not reach back to t - b.
---
 src/rmtld3/formulas.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index d8148fb..61f2973 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -405,6 +405,7 @@ three_valued_type pasteventually_equal(T &trace, timespan &t) {
   timespan c_time = t;
   typename T::buffer_t::event_t event;
   three_valued_type symbol = T_UNKNOWN;
+  bool enough = t < b; // all the history there can be
 
   size_t c_pasteventually = trace.get_cursor();
 
@@ -417,9 +418,6 @@ three_valued_type pasteventually_equal(T &trace, timespan &t) {
     if (c_time == t) /* since semantics is strict and non-matching */
       continue;
 
-    if (t>=b && c_time <= t - b)
-      break;
-
     size_t c = trace.get_cursor();
     DEBUGV_RMTLD3("$compute phi\n");
     symbol = E::eval_phi1(trace, c_time);
@@ -428,13 +426,18 @@ three_valued_type pasteventually_equal(T &trace, timespan &t) {
         c); // reset the cursor changes during the evaluation of the subformula
 
     trace.debug();
+
+    if (t>=b && c_time <= t - b) {
+      enough = true; // this is the symbol in force at t - b
+      break;
+    }
   } while (trace.decrement_cursor() == trace.AVAILABLE &&
            trace.read(event) == trace.AVAILABLE);
 
   trace.set_cursor(c_pasteventually); // reset the cursor changes during the
                                       // evaluation of the subformula
 
-  return symbol;
+  return enough ? symbol : T_UNKNOWN;
 }
 
 /**
-- 
2.43.0


From 934f3b34dd76f32e15220473da79fd547202ed94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:33 +0000
Subject: [PATCH 17/29] fix: until_less checks instants in between in order and
 before t + b

Instants beyond the next event were evaluated before that event, and
instants at or after t + b as well: a witness there made the until true
although phi1 had failed before it, or although it came too late.
---
 src/rmtld3/formulas.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index 61f2973..811cc49 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -122,6 +122,7 @@ three_valued_type until_less(T &trace, timespan &t) {
       if (v == false) {
         size_t store_cursor = trace.get_cursor();
         timespan t1, t2, t3 = c_time;
+        timespan limit = t + b; // or the next event, which has its own turn
         typename T::buffer_t::event_t e1, e2;
         while (true) {
           trace.increment_cursor();
@@ -134,7 +135,10 @@ three_valued_type until_less(T &trace, timespan &t) {
           t2 = e2.getTime();
           t3 += (t2 - t1);
 
-          if (t3 >= t1)
+          if (t1 < limit)
+            limit = t1;
+
+          if (t3 >= limit)
             break;
 
           DEBUGV_RMTLD3("t1=%d t2=%d t3=%d\n", t1, t2, t3);
-- 
2.43.0


From 6588a2c07dd54e12ad1f5308dbcaa7cba4921eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:33 +0000
Subject: [PATCH 18/29] fix: two events with the same time and different data
 are not equal

operator!= ignored the data: such a pair was neither == nor !=.
---
 src/event.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/event.h b/src/event.h
index 8b06ea1..2b990fc 100644
--- a/src/event.h
+++ b/src/event.h
@@ -315,7 +315,7 @@ template <typename T> bool Event<T>::operator==(Event<T> const &event) const {
 }
 
 template <typename T> bool Event<T>::operator!=(Event<T> const &event) const {
-  return time != event.time;
+  return !(*this == event);
 }
 
 template <typename T> bool Event<T>::operator<(const timespan &ttime) const {
-- 
2.43.0


From b8c8d90e4daccf362a7c87b93f63e75da1f335f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:43 +0000
Subject: [PATCH 19/29] fix: a task is not active before it is activated

The status was set after the thread was created: until then it was not
initialised (0 is ACTIVATE), so the task could start by itself, and a
status the new thread had reached could be undone.
---
 src/task_compat.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/task_compat.h b/src/task_compat.h
index f21fd2c..7030233 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -168,15 +168,13 @@ struct task {
 
     DEBUGV_APPEND("\n");
 
-    st = UNACTIVATE;
-
     return 0;
   }
 
   task(char const *id, void *(*loop)(void *), const int prio,
        const int sch_policy, const useconds_t p, void *payload = NULL)
-      : tid(id), period(p), sched_policy(sch_policy), priority(prio), run(loop),
-        run_payload(payload) {
+      : tid(id), period(p), sched_policy(sch_policy), priority(prio),
+        st(UNACTIVATE), run(loop), run_payload(payload) {
     create_task(
         [](void *tsk) -> void * {
           struct task *ttask = (struct task *)tsk;
-- 
2.43.0


From bf50ca7130df7ba7e6ee8e8c0f3cf3163b9dd988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:43 +0000
Subject: [PATCH 20/29] fix: a task that has not started yet can be aborted

The start trap ignored ABORT, so joining a monitor disabled before it was
running waited forever; an ABORT that came between the check and the
assignment of RUNNING was lost.
---
 src/task_compat.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/task_compat.h b/src/task_compat.h
index 7030233..98932ab 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -190,9 +190,11 @@ struct task {
 
           // trap to block task start
           for (;;) {
-            if (ttask->st == ACTIVATE) {
-              ttask->st = RUNNING;
+            if (__sync_bool_compare_and_swap(&ttask->st, ACTIVATE, RUNNING))
               break;
+            if (ttask->st == ABORT) {
+              ttask->st = ABORTED;
+              return NULL;
             }
             nanosleep((const struct timespec[]){{0, 100000L}}, NULL);
           }
-- 
2.43.0


From 1be5191c18584c04dabd7c9c0bc027d30ec729f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:43 +0000
Subject: [PATCH 21/29] fix: a spurious wake up does not end a task

pthread_cond_timedwait may return 0 at any time; the task then left its
loop for good with the mutex locked.
---
 src/task_compat.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/task_compat.h b/src/task_compat.h
index 98932ab..2b58beb 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -238,10 +238,13 @@ struct task {
             }
 
             pthread_mutex_lock(&ttask->fmtx);
-            pcheck_print(
-                pthread_cond_timedwait(&ttask->cond, &ttask->fmtx, &next),
-                ETIMEDOUT, break;);
+            int ret;
+            // a spurious wake up does not end the period
+            while ((ret = pthread_cond_timedwait(&ttask->cond, &ttask->fmtx,
+                                                 &next)) == P_OK)
+              ;
             pthread_mutex_unlock(&ttask->fmtx);
+            pcheck_print(ret, ETIMEDOUT, break;);
 
             if (ttask->st == ABORT) {
               ttask->st = ABORTED;
-- 
2.43.0


From 682fb2f8de6f729e16dc8b61d68a467771542a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:43 +0000
Subject: [PATCH 22/29] fix: enabling a running or disabled monitor does not
 change its status

A running monitor that was enabled again said it was not running, and
enabling one that had just been disabled cancelled that: join() hung.
---
 src/periodicmonitor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/periodicmonitor.h b/src/periodicmonitor.h
index 7ece78e..79f09f1 100644
--- a/src/periodicmonitor.h
+++ b/src/periodicmonitor.h
@@ -143,8 +143,8 @@ template <char... name> void *RTML_monitor<name...>::loop(void *ptr) {
 
 template <char... name> int RTML_monitor<name...>::enable() {
 
-  if (_task.st != ACTIVATE)
-    _task.st = ACTIVATE;
+  // only a monitor that is neither running nor disabled can be activated
+  __sync_bool_compare_and_swap(&_task.st, UNACTIVATE, ACTIVATE);
 
   return P_OK;
 }
-- 
2.43.0


From c9fe2ce644367f4f254fe8c40ae2fa4e7508ed1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:13 +0000
Subject: [PATCH 23/29] fix: read the ARM tick counters consistently and as
 integers

The tick interrupt between the two readings put a timestamp up to a tick into
the future, and the result was a double, whose conversion to a timespan is
undefined from 4.3 s on.
---
 src/time_compat.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/time_compat.h b/src/time_compat.h
index 71d8559..4b0776b 100644
--- a/src/time_compat.h
+++ b/src/time_compat.h
@@ -130,9 +130,14 @@ typedef uint32_t timespan;
 
 #define clockgettime()                                                         \
   ({                                                                           \
-    timespan ns = SysTick->VAL;                                                \
-    uint64_t ms = g_system_timer;                                              \
-    (ms * 1000000) + ((1000000. / SysTick->LOAD) * (SysTick->LOAD - ns));      \
+    timespan ns;                                                               \
+    uint64_t ms;                                                               \
+    do { /* the tick can come between the two readings */                      \
+      ms = g_system_timer;                                                     \
+      ns = SysTick->VAL;                                                       \
+    } while (ms != g_system_timer);                                            \
+    (ms * 1000000) +                                                           \
+        (uint64_t)((1000000. / SysTick->LOAD) * (SysTick->LOAD - ns));         \
   })
 
 #elif defined(__FREERTOS__)
@@ -151,9 +156,14 @@ typedef uint32_t timespan;
 
 #define clockgettime()                                                         \
   ({                                                                           \
-    timespan ns = SysTick->VAL;                                                \
-    uint64_t ms = SYSTEM_TIMER();                                              \
-    (ms * 1000000) + ((1000000. / SysTick->LOAD) * (SysTick->LOAD - ns));      \
+    timespan ns;                                                               \
+    uint64_t ms;                                                               \
+    do { /* the tick can come between the two readings */                      \
+      ms = SYSTEM_TIMER();                                                     \
+      ns = SysTick->VAL;                                                       \
+    } while (ms != SYSTEM_TIMER());                                            \
+    (ms * 1000000) +                                                           \
+        (uint64_t)((1000000. / SysTick->LOAD) * (SysTick->LOAD - ns));         \
   })
 
 #endif
-- 
2.43.0


From 8022a9495f0449a9e285bf0f93b7515632affe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:33 +0000
Subject: [PATCH 24/29] fix: assign the events of a buffer one by one instead
 of bitwise

---
 src/atomic_compat.h  | 5 ++---
 src/circularbuffer.h | 7 ++++++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index 815b266..1eeb2c7 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -237,10 +237,9 @@ union page_t {
       ATOMIC_VAR_INIT({(NATIVE_POINTER_TYPE)&state_global});                   \
   std::atomic_flag release = ATOMIC_FLAG_INIT
 
-/* after a bitwise copy the page refers to the state of the original buffer;
-   take that state over */
+/* take the state of the assigned buffer over, and refer to our own one */
 #define ATOMIC_ADOPT()                                                         \
-  page_t current = (page_t)std::atomic_load(&page);                            \
+  page_t current = (page_t)std::atomic_load(&rhs.page);                        \
   state_global = *(state_t *)current.stateref;                                 \
   current.stateref = (NATIVE_POINTER_TYPE)&state_global;                       \
   std::atomic_store(&page, current);
diff --git a/src/circularbuffer.h b/src/circularbuffer.h
index 50707b3..0bd658c 100644
--- a/src/circularbuffer.h
+++ b/src/circularbuffer.h
@@ -303,7 +303,12 @@ template <typename T, size_t N> void RTML_buffer<T, N>::debug() const {
 
 template <typename T, size_t N>
 RTML_buffer<T, N> &RTML_buffer<T, N>::operator=(const RTML_buffer<T, N> &rhs) {
-  MEMCPY(this, &rhs, sizeof(rhs));
+  // element by element; the data of an event may not be copied bitwise
+  for (size_t i = 0; i < N + 2; i++)
+    array[i] = rhs.array[i];
+  __top = rhs.__top;
+  __bottom = rhs.__bottom;
+  writer = rhs.writer;
   ATOMIC_ADOPT();
   return *this;
 }
-- 
2.43.0


From eb6c080422de1296d70a2847c64ce2ba4957b0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:58 +0000
Subject: [PATCH 25/29] fix: a writer waited forever after an event was pushed
 to the buffer itself

---
 src/atomic_compat.h  | 9 +++++++++
 src/circularbuffer.h | 1 +
 2 files changed, 10 insertions(+)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index 1eeb2c7..4125004 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -60,6 +60,7 @@ typedef unsigned int uint32_t;
   b = _bottom();                                                               \
   t = _top();
 
+#define ATOMIC_LAST(index, node)
 #define ATOMIC_ADOPT()
 #define ATOMIC_RELEASE()
 
@@ -237,6 +238,14 @@ union page_t {
       ATOMIC_VAR_INIT({(NATIVE_POINTER_TYPE)&state_global});                   \
   std::atomic_flag release = ATOMIC_FLAG_INIT
 
+/* the last event, which the writers wait for, is the one at index now */
+#define ATOMIC_LAST(index, node)                                               \
+  {                                                                            \
+    state_t *last = (state_t *)((page_t)std::atomic_load(&page)).stateref;     \
+    last->pos = index;                                                         \
+    last->event = node;                                                        \
+  }
+
 /* take the state of the assigned buffer over, and refer to our own one */
 #define ATOMIC_ADOPT()                                                         \
   page_t current = (page_t)std::atomic_load(&rhs.page);                        \
diff --git a/src/circularbuffer.h b/src/circularbuffer.h
index 0bd658c..86be70c 100644
--- a/src/circularbuffer.h
+++ b/src/circularbuffer.h
@@ -181,6 +181,7 @@ RTML_buffer<T, N>::push(const event_t &node) {
   size_t &t = _top();
   size_t &b = _bottom();
   array[t] = node;
+  ATOMIC_LAST(t, node);
 
   increment_top();
 
-- 
2.43.0


From f668bef555a06f58c651fe85d97190b7cc30b725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:26 +0000
Subject: [PATCH 26/29] fix: a writer waited forever after its last event was
 replaced in the buffer

---
 src/atomic_compat.h  |  9 +++++++++
 src/circularbuffer.h | 16 ++++++++++++++++
 src/writer.h         |  4 ++--
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index 4125004..8b5e9da 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -61,6 +61,7 @@ typedef unsigned int uint32_t;
   t = _top();
 
 #define ATOMIC_LAST(index, node)
+#define ATOMIC_LAST_CHANGED(index, node)
 #define ATOMIC_ADOPT()
 #define ATOMIC_RELEASE()
 
@@ -246,6 +247,14 @@ union page_t {
     last->event = node;                                                        \
   }
 
+/* the event at index was replaced; it may be the one that the writers wait for */
+#define ATOMIC_LAST_CHANGED(index, node)                                       \
+  {                                                                            \
+    state_t *last = (state_t *)((page_t)std::atomic_load(&page)).stateref;     \
+    if (last->pos == index)                                                    \
+      last->event = node;                                                      \
+  }
+
 /* take the state of the assigned buffer over, and refer to our own one */
 #define ATOMIC_ADOPT()                                                         \
   page_t current = (page_t)std::atomic_load(&rhs.page);                        \
diff --git a/src/circularbuffer.h b/src/circularbuffer.h
index 86be70c..bce0b8b 100644
--- a/src/circularbuffer.h
+++ b/src/circularbuffer.h
@@ -138,6 +138,11 @@ public:
    */
   error_t write(event_t &, size_t);
 
+  /**
+   * Set the node that a writer has reserved at the index
+   */
+  error_t store(event_t &, size_t);
+
   /**
    * Get the state of the buffer without timestamps
    */
@@ -238,6 +243,17 @@ RTML_buffer<T, N>::read(event_t &event, size_t index) const {
 template <typename T, size_t N>
 typename RTML_buffer<T, N>::error_t RTML_buffer<T, N>::write(event_t &event,
                                                              size_t index) {
+  if (index < size) {
+    array[index] = event;
+    ATOMIC_LAST_CHANGED(index, event);
+  }
+
+  return index < size ? OK : OUT_OF_BOUND;
+}
+
+template <typename T, size_t N>
+typename RTML_buffer<T, N>::error_t RTML_buffer<T, N>::store(event_t &event,
+                                                             size_t index) {
   if (index < size)
     array[index] = event;
 
diff --git a/src/writer.h b/src/writer.h
index c71f95e..4db39ba 100644
--- a/src/writer.h
+++ b/src/writer.h
@@ -127,7 +127,7 @@ typename B::error_t RTML_writer<B>::push(typename B::event_t &event) {
     err = (p) ? buffer.BUFFER_OVERFLOW : buffer.OK;
   });
 
-  buffer.write(event, top);
+  buffer.store(event, top);
 
 #endif
 
@@ -156,7 +156,7 @@ typename B::error_t RTML_writer<B>::push_all(typename B::event_t &event) {
     err = (p) ? buffer.BUFFER_OVERFLOW : buffer.OK;
   });
 
-  buffer.write(event, top);
+  buffer.store(event, top);
 
 #endif
 
-- 
2.43.0


From 47eec5b52976d01162138f64ff9a862bda9c3f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:32 +0000
Subject: [PATCH 27/29] fix: a writer that has not stored its event is
 recognised by a flag

The writers waited until the slot of the last push equals the event of that
push. When the slot already held an equal event (same data and time, one lap
before) they did not wait, and the late store replaced a newer event; when
the data are not equal to themselves (a NaN) they waited forever.
---
 src/atomic_compat.h  | 41 ++++++++++-------------------------------
 src/circularbuffer.h | 17 -----------------
 src/writer.h         |  6 ++++--
 3 files changed, 14 insertions(+), 50 deletions(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index 8b5e9da..4956f6e 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -60,8 +60,6 @@ typedef unsigned int uint32_t;
   b = _bottom();                                                               \
   t = _top();
 
-#define ATOMIC_LAST(index, node)
-#define ATOMIC_LAST_CHANGED(index, node)
 #define ATOMIC_ADOPT()
 #define ATOMIC_RELEASE()
 
@@ -211,9 +209,8 @@ union page_t {
   struct __state {                                                             \
     size_t top;                                                                \
     size_t bottom;                                                             \
-    /* variables that can help to confirm that the last value is ready */      \
-    size_t pos;                                                                \
-    event_t event;                                                             \
+    /* the event of the push that made this state is in the buffer */          \
+    bool ready;                                                                \
   };                                                                           \
                                                                                \
   typedef struct __state state_t
@@ -233,28 +230,11 @@ union page_t {
            ((page_t)std::atomic_load(&page)).wide_uniqueid);
 
 #define ATOMIC_PAGE()                                                          \
-  state_t state_global = {                                                     \
-      .top = 0, .bottom = 0, .pos = 0, .event = event_t()};                    \
+  state_t state_global = {.top = 0, .bottom = 0, .ready = true};               \
   std::atomic<page_t> page =                                                   \
       ATOMIC_VAR_INIT({(NATIVE_POINTER_TYPE)&state_global});                   \
   std::atomic_flag release = ATOMIC_FLAG_INIT
 
-/* the last event, which the writers wait for, is the one at index now */
-#define ATOMIC_LAST(index, node)                                               \
-  {                                                                            \
-    state_t *last = (state_t *)((page_t)std::atomic_load(&page)).stateref;     \
-    last->pos = index;                                                         \
-    last->event = node;                                                        \
-  }
-
-/* the event at index was replaced; it may be the one that the writers wait for */
-#define ATOMIC_LAST_CHANGED(index, node)                                       \
-  {                                                                            \
-    state_t *last = (state_t *)((page_t)std::atomic_load(&page)).stateref;     \
-    if (last->pos == index)                                                    \
-      last->event = node;                                                      \
-  }
-
 /* take the state of the assigned buffer over, and refer to our own one */
 #define ATOMIC_ADOPT()                                                         \
   page_t current = (page_t)std::atomic_load(&rhs.page);                        \
@@ -288,7 +268,6 @@ union page_t {
 #define ATOMIC_PUSH(body)                                                      \
   bool fail = false;                                                           \
   page_t current_page_content, new_page_content;                               \
-  typename B::event_t evt;                                                     \
   do {                                                                         \
     if (fail) {                                                                \
       /* do a yield here */                                                    \
@@ -301,9 +280,9 @@ union page_t {
     current_page_content = (page_t)std::atomic_load(&buffer.page);             \
     new_page_content = current_page_content;                                   \
                                                                                \
-    buffer.read(evt, ((state_t *)current_page_content.stateref)->pos);         \
-    DEBUGV("%lu\n", ((state_t *)current_page_content.stateref)->pos);          \
-    if (!(((state_t *)current_page_content.stateref)->event == evt)) {         \
+    if (!__atomic_load_n(                                                      \
+            &((state_t *)current_page_content.stateref)->ready,                \
+            __ATOMIC_ACQUIRE)) {                                               \
       /* do a yield here */                                                    \
       YIELD();                                                                 \
       goto complete;                                                           \
@@ -321,18 +300,18 @@ union page_t {
     /* copy state */                                                           \
     stateref->bottom = ((state_t *)current_page_content.stateref)->bottom;     \
     stateref->top = ((state_t *)current_page_content.stateref)->top;           \
-    stateref->pos = stateref->top;                                             \
+    stateref->ready = false;                                                   \
                                                                                \
     body;                                                                      \
                                                                                \
-    /* copy remaining state */                                                 \
-    stateref->event = event;                                                   \
-                                                                               \
     DEBUG_FRAME();                                                             \
   } while (                                                                    \
       fail = !(std::atomic_compare_exchange_strong(                            \
           &buffer.page, &current_page_content, (update(new_page_content)))));
 
+/* the event of the push is in the buffer; the next push can begin */
+#define ATOMIC_PUSHED() __atomic_store_n(&stateref->ready, true, __ATOMIC_RELEASE)
+
 #else
 
 #warning "Atomic guarantees are not supported!"
diff --git a/src/circularbuffer.h b/src/circularbuffer.h
index bce0b8b..0bd658c 100644
--- a/src/circularbuffer.h
+++ b/src/circularbuffer.h
@@ -138,11 +138,6 @@ public:
    */
   error_t write(event_t &, size_t);
 
-  /**
-   * Set the node that a writer has reserved at the index
-   */
-  error_t store(event_t &, size_t);
-
   /**
    * Get the state of the buffer without timestamps
    */
@@ -186,7 +181,6 @@ RTML_buffer<T, N>::push(const event_t &node) {
   size_t &t = _top();
   size_t &b = _bottom();
   array[t] = node;
-  ATOMIC_LAST(t, node);
 
   increment_top();
 
@@ -243,17 +237,6 @@ RTML_buffer<T, N>::read(event_t &event, size_t index) const {
 template <typename T, size_t N>
 typename RTML_buffer<T, N>::error_t RTML_buffer<T, N>::write(event_t &event,
                                                              size_t index) {
-  if (index < size) {
-    array[index] = event;
-    ATOMIC_LAST_CHANGED(index, event);
-  }
-
-  return index < size ? OK : OUT_OF_BOUND;
-}
-
-template <typename T, size_t N>
-typename RTML_buffer<T, N>::error_t RTML_buffer<T, N>::store(event_t &event,
-                                                             size_t index) {
   if (index < size)
     array[index] = event;
 
diff --git a/src/writer.h b/src/writer.h
index 4db39ba..31c23b1 100644
--- a/src/writer.h
+++ b/src/writer.h
@@ -127,7 +127,8 @@ typename B::error_t RTML_writer<B>::push(typename B::event_t &event) {
     err = (p) ? buffer.BUFFER_OVERFLOW : buffer.OK;
   });
 
-  buffer.store(event, top);
+  buffer.write(event, top);
+  ATOMIC_PUSHED();
 
 #endif
 
@@ -156,7 +157,8 @@ typename B::error_t RTML_writer<B>::push_all(typename B::event_t &event) {
     err = (p) ? buffer.BUFFER_OVERFLOW : buffer.OK;
   });
 
-  buffer.store(event, top);
+  buffer.write(event, top);
+  ATOMIC_PUSHED();
 
 #endif
 
-- 
2.43.0


From eb33ec1dd8c7f9940f5f32bca1e658d067b8440d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:45 +0000
Subject: [PATCH 28/29] fix: build for 32-bit x86, with 64-bit timestamps

No compiler defines __x86__, YIELD was defined for x86_64 only, and a long
of 32 bits holds two seconds of nanoseconds.
---
 src/atomic_compat.h | 3 ++-
 src/debug_compat.h  | 6 +++---
 src/time_compat.h   | 6 +++++-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index 4956f6e..09cf304 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -172,9 +172,10 @@ union page_t {
 #elif defined(__x86_64__)
 #define NATIVE_POINTER_TYPE uint64_t
 #define NATIVE_ATOMIC_POINTER __int128
+#endif
+
 #define YIELD()                                                                \
   { sched_yield(); }
-#endif
 
 /*
  * This union type is used to split a 64/128 bit wide integer into two equaly
diff --git a/src/debug_compat.h b/src/debug_compat.h
index c6a7a58..f28cdfe 100644
--- a/src/debug_compat.h
+++ b/src/debug_compat.h
@@ -29,7 +29,7 @@
 
 #if RTMLIB_DEBUG > 0
 
-#if defined(__x86__) || defined(__x86_64__)
+#if defined(__x86__) || defined(__i386__) || defined(__x86_64__)
 
 #include <cstdio>
 
@@ -59,7 +59,7 @@ extern "C" int printf(const char *format, ...);
 
 #else
 
-#if defined(__x86__) || defined(__x86_64__)
+#if defined(__x86__) || defined(__i386__) || defined(__x86_64__)
 #include <cstdio>
 #endif
 
@@ -78,7 +78,7 @@ extern "C" int printf(const char *format, ...);
 
 #if RTMLIB_DEBUG > 2
 
-#if defined(__x86__) || defined(__x86_64__)
+#if defined(__x86__) || defined(__i386__) || defined(__x86_64__)
 
 #define DEBUGV3(fmt, args...)                                                  \
   fprintf(stdout, "DEBUG: %s:%d:%s(): " fmt, __FILE__, __LINE__, __func__,     \
diff --git a/src/time_compat.h b/src/time_compat.h
index 4b0776b..bd17192 100644
--- a/src/time_compat.h
+++ b/src/time_compat.h
@@ -173,13 +173,17 @@ typedef uint32_t timespan;
  * x86 and x86_64 time macros
  *
  */
-#elif defined(__x86__) || defined(__x86_64__)
+#elif defined(__x86__) || defined(__i386__) || defined(__x86_64__)
 
 #include <pthread.h>
 #include <time.h>
 
 typedef long long timeabs;
+#ifdef __x86_64__
 typedef long timespan;
+#else
+typedef long long timespan;
+#endif
 
 #define clockgettime()                                                         \
   ({                                                                           \
-- 
2.43.0


From eff841229636a19074f61c7f01fffc9b4cc99a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:45 +0000
Subject: [PATCH 29/29] fix: a monitor whose thread could not be created says
 so and can be joined

---
 src/periodicmonitor.h | 6 +++++-
 src/task_compat.h     | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/periodicmonitor.h b/src/periodicmonitor.h
index 79f09f1..74daba9 100644
--- a/src/periodicmonitor.h
+++ b/src/periodicmonitor.h
@@ -143,6 +143,10 @@ template <char... name> void *RTML_monitor<name...>::loop(void *ptr) {
 
 template <char... name> int RTML_monitor<name...>::enable() {
 
+  // a monitor whose thread could not be created will never run
+  if (_task.error != P_OK)
+    return _task.error;
+
   // only a monitor that is neither running nor disabled can be activated
   __sync_bool_compare_and_swap(&_task.st, UNACTIVATE, ACTIVATE);
 
@@ -172,7 +176,7 @@ void RTML_monitor<name...>::setPeriod(const useconds_t &p) {
 
 template <char... name> int RTML_monitor<name...>::join() {
   void *ret = NULL;
-  if (pthread_join(_task.thread, &ret))
+  if (_task.error != P_OK || pthread_join(_task.thread, &ret))
     return 1;
 
   return 0;
diff --git a/src/task_compat.h b/src/task_compat.h
index 2b58beb..cd8fb42 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -140,6 +140,9 @@ struct task {
 
   void *run_payload;
 
+  // why there is no thread, if there is none
+  int error;
+
   int create_task(void *(*loop)(void *), const int pri, const int s_policy,
                   int stack_size = STACK_SIZE) {
     pthread_attr_t attribute = {0};
@@ -175,7 +178,7 @@ struct task {
        const int sch_policy, const useconds_t p, void *payload = NULL)
       : tid(id), period(p), sched_policy(sch_policy), priority(prio),
         st(UNACTIVATE), run(loop), run_payload(payload) {
-    create_task(
+    error = create_task(
         [](void *tsk) -> void * {
           struct task *ttask = (struct task *)tsk;
           struct timespec now = {0}, next = {0}, tmp = {0};
-- 
2.43.0

