From 29d1b5d8d69563db56a22d99b61e7d9c77a3b592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:43 +0000
Subject: [PATCH 01/22] fix: Event != is the negation of Event == (data is
 compared as well)

---
 src/event.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/event.h b/src/event.h
index 8b06ea1..2b990fc 100644
--- a/src/event.h
+++ b/src/event.h
@@ -315,7 +315,7 @@ template <typename T> bool Event<T>::operator==(Event<T> const &event) const {
 }
 
 template <typename T> bool Event<T>::operator!=(Event<T> const &event) const {
-  return time != event.time;
+  return !(*this == event);
 }
 
 template <typename T> bool Event<T>::operator<(const timespan &ttime) const {
-- 
2.43.0


From 4c2f0e0a5f089974614de590fe30e179100ced0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:43 +0000
Subject: [PATCH 02/22] fix: an assigned RTML_buffer owns its state instead of
 sharing the page of its source

---
 src/atomic_compat.h  | 11 +++++++++++
 src/circularbuffer.h |  1 +
 2 files changed, 12 insertions(+)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index 5d6797c..aed4569 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -53,6 +53,8 @@ typedef unsigned int uint32_t;
 #define ATOMIC(body)                                                           \
   { body }
 
+#define ATOMIC_PAGE_COPY(rhs)
+
 #define _bottom() __bottom
 #define _top() __top
 
@@ -228,6 +230,15 @@ union page_t {
   std::atomic<page_t> page =                                                   \
       ATOMIC_VAR_INIT({(NATIVE_POINTER_TYPE)&state_global})
 
+/* take over the current state of rhs without sharing its storage */
+#define ATOMIC_PAGE_COPY(rhs)                                                  \
+  {                                                                            \
+    page_t copy = (page_t)std::atomic_load(&rhs.page);                         \
+    state_global = *((state_t *)copy.stateref);                                \
+    copy.stateref = (NATIVE_POINTER_TYPE)&state_global;                        \
+    std::atomic_store(&page, copy);                                            \
+  }
+
 #define ATOMIC_PAGE_SWAP()                                                     \
   typedef typename B::state_t state_t;                                         \
   state_t state;                                                               \
diff --git a/src/circularbuffer.h b/src/circularbuffer.h
index 636de15..9e5f518 100644
--- a/src/circularbuffer.h
+++ b/src/circularbuffer.h
@@ -297,6 +297,7 @@ template <typename T, size_t N> void RTML_buffer<T, N>::debug() const {
 template <typename T, size_t N>
 RTML_buffer<T, N> &RTML_buffer<T, N>::operator=(const RTML_buffer<T, N> &rhs) {
   MEMCPY(this, &rhs, sizeof(rhs));
+  ATOMIC_PAGE_COPY(rhs);
   return *this;
 }
 
-- 
2.43.0


From 9ea0a6da501c53333c635e8f77bf5d17bdf8921c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:09 +0000
Subject: [PATCH 03/22] fix: RTML_reader::pull reports an overwritten event
 instead of delivering its successor as AVAILABLE

---
 src/reader.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reader.h b/src/reader.h
index f2320c6..5d57825 100644
--- a/src/reader.h
+++ b/src/reader.h
@@ -165,6 +165,9 @@ RTML_reader<B>::pull(typename B::event_t &event) {
     if (buffer.read(event, bottom) != buffer.OK)
       return READ_ERROR;
 
+    // an event newer than the expected one: the expected one was overwritten
+    const bool lost = timestamp < event.getTime();
+
     // update local bottom
     increment_reader_bottom();
 
@@ -175,7 +178,7 @@ RTML_reader<B>::pull(typename B::event_t &event) {
     if (buffer.read(event_next, bottom) == buffer.OK) {
       timestamp = event_next.getTime();
 
-      if (gap())
+      if (lost || gap())
         return READER_OVERFLOW;
       else
         return AVAILABLE;
-- 
2.43.0


From c8f1abb41fa7bd62fa9fdc02cca5232c6ecaabd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:09 +0000
Subject: [PATCH 04/22] fix: RTML_reader::synchronize restarts a lapped reader
 at the oldest retained event

---
 src/reader.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/reader.h b/src/reader.h
index 5d57825..265aede 100644
--- a/src/reader.h
+++ b/src/reader.h
@@ -229,7 +229,7 @@ typename RTML_reader<B>::gap_error_t RTML_reader<B>::synchronize() {
   if (t < b) {
     DEBUGV("1-> t < b (with overlap)\n");
     
-    if (gap() == GAP) {
+    if (gap() == GAP || timestamp < ts) {
       DEBUGV("gap!\n");
       top = t;
       bottom = b;
@@ -251,8 +251,11 @@ typename RTML_reader<B>::gap_error_t RTML_reader<B>::synchronize() {
     } else {
       // reader is out of sync
       top = t;
-      bottom = (b < bottom && b < t) ? bottom : b;
-      timestamp = (b < bottom && b < t) ? timestamp : ts;
+      if (bottom < b || timestamp < ts) {
+        // the expected event is gone; continue with the oldest one
+        bottom = b;
+        timestamp = ts;
+      }
 
       return GAP; // HARD_SYNC
     }
-- 
2.43.0


From 47bebb9ea89cab237945ef6828ca07a1d7d00f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:09 +0000
Subject: [PATCH 05/22] fix: RMTLD3_reader::read_previous wraps around from
 slot 0

---
 src/rmtld3/reader.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rmtld3/reader.h b/src/rmtld3/reader.h
index 876dc9c..831925f 100644
--- a/src/rmtld3/reader.h
+++ b/src/rmtld3/reader.h
@@ -251,8 +251,8 @@ RMTLD3_reader<R, P>::read_previous(typename R::buffer_t::event_t &e) {
                 R::length());
   return ((consumed() > 0 &&
            cursor != R::bottom && // [TODO: check this: !(cursor == R::bottom)]
-           (R::buffer.read(e, ((cursor - 1) < 0) ? R::buffer.size - 1
-                                                 : cursor - 1)) ==
+           (R::buffer.read(e, (cursor == 0) ? R::buffer.size - 1
+                                             : cursor - 1)) ==
                R::buffer.OK))
              ? R::AVAILABLE
              : R::UNAVAILABLE;
-- 
2.43.0


From a5ded5c07bf985b9109430057abce55478ccf7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:09 +0000
Subject: [PATCH 06/22] fix: RMTLD3_reader::set leaves the cursor at the event
 in force when it searches backward

---
 src/rmtld3/formulas.h | 1 -
 src/rmtld3/reader.h   | 1 +
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index 66dde65..6f928ad 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -141,7 +141,6 @@ three_valued_type until_less(T &trace, timespan &t) {
 
           size_t store_cursor2 = trace.get_cursor();
           trace.set(t3);
-          trace.decrement_cursor();
           symbol = eval_b(trace, t3, symbol);
           trace.set_cursor(store_cursor2);
         };
diff --git a/src/rmtld3/reader.h b/src/rmtld3/reader.h
index 831925f..001dd35 100644
--- a/src/rmtld3/reader.h
+++ b/src/rmtld3/reader.h
@@ -132,6 +132,7 @@ typename R::error_t RMTLD3_reader<R, P>::set(timespan &t) {
     DEBUGV_RMTLD3("--- %lu %lu\n", e.getTime(), ee.getTime());
 
     if (e.getTime() <= t && t < ee.getTime()) {
+      decrement_cursor(); // e is the event in force at t
       return R::AVAILABLE;
     }
 
-- 
2.43.0


From 65ffe6287d6524652ce6f40e062456cf3b504c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:09 +0000
Subject: [PATCH 07/22] fix: parenthesize the three-valued connective macros so
 that they nest

---
 src/rmtld3/rmtld3.h | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/rmtld3/rmtld3.h b/src/rmtld3/rmtld3.h
index 340175c..e876f40 100644
--- a/src/rmtld3/rmtld3.h
+++ b/src/rmtld3/rmtld3.h
@@ -45,32 +45,33 @@ inline duration mult_dur(const duration &lhs, const duration &rhs) {
 
 // type conversion from three_valued_type to four_valued_type
 #define b3_to_b4(b3)                                                           \
-  (b3 == T_TRUE) ? FV_TRUE : ((b3 == T_FALSE) ? FV_FALSE : FV_UNKNOWN)
+  (((b3) == T_TRUE) ? FV_TRUE : (((b3) == T_FALSE) ? FV_FALSE : FV_UNKNOWN))
 
 // convert four_valued_type into three_valued type
 #define b4_to_b3(b4)                                                           \
-  (b4 == FV_TRUE) ? T_TRUE : ((b4 == FV_FALSE) ? T_FALSE : T_UNKNOWN)
+  (((b4) == FV_TRUE) ? T_TRUE : (((b4) == FV_FALSE) ? T_FALSE : T_UNKNOWN))
 
 /** OR */
 #define b3_or(b31, b32)                                                        \
-  (b31 == T_TRUE || b32 == T_TRUE)                                             \
-      ? T_TRUE                                                                 \
-      : ((b31 == T_FALSE && b32 == T_FALSE) ? T_FALSE : T_UNKNOWN)
+  (((b31) == T_TRUE || (b32) == T_TRUE)                                        \
+       ? T_TRUE                                                                \
+       : (((b31) == T_FALSE && (b32) == T_FALSE) ? T_FALSE : T_UNKNOWN))
 
 /** AND */
 #define b3_and(b31, b32)                                                       \
-  (b31 == T_TRUE && b32 == T_TRUE)                                             \
-      ? T_TRUE                                                                 \
-      : ((b31 == T_FALSE || b32 == T_FALSE) ? T_FALSE : T_UNKNOWN)
+  (((b31) == T_TRUE && (b32) == T_TRUE)                                        \
+       ? T_TRUE                                                                \
+       : (((b31) == T_FALSE || (b32) == T_FALSE) ? T_FALSE : T_UNKNOWN))
 
 /** NOT */
 #define b3_not(b3)                                                             \
-  ((b3 == T_TRUE) ? T_FALSE : ((b3 == T_FALSE) ? T_TRUE : T_UNKNOWN))
+  (((b3) == T_TRUE) ? T_FALSE : (((b3) == T_FALSE) ? T_TRUE : T_UNKNOWN))
 
 /** Relation operator < */
 #define b3_lessthan(n1, n2)                                                    \
-  ((n1.second || n2.second) ? T_UNKNOWN                                        \
-                            : ((n1.first < n2.first) ? T_TRUE : T_FALSE))
+  (((n1).second || (n2).second)                                                \
+       ? T_UNKNOWN                                                             \
+       : (((n1).first < (n2).first) ? T_TRUE : T_FALSE))
 
 #define ASSERT_RMTLD3(l) assert(l)
 
-- 
2.43.0


From f6d2dcf27ccd5a757a0fded02bc03ed070c400b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:01 +0000
Subject: [PATCH 08/22] fix: always_less and historically_less evaluate their
 operand once

b3_not is a macro that mentions its argument twice, so an operand that moves
the cursor was evaluated a second time at another position.
---
 src/rmtld3/formulas.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index 6f928ad..23e54ec 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -283,7 +283,9 @@ three_valued_type always_less(T &trace, timespan &t) {
       return T_TRUE;
     };
     static three_valued_type eval_phi2(T &trace, timespan &t) {
-      return b3_not(E::eval_phi1(trace, t));
+      // b3_not is a macro; the operand shall be evaluated only once
+      three_valued_type phi1 = E::eval_phi1(trace, t);
+      return b3_not(phi1);
     };
   };
 
@@ -461,7 +463,9 @@ three_valued_type historically_less(T &trace, timespan &t) {
       return T_TRUE;
     };
     static three_valued_type eval_phi2(T &trace, timespan &t) {
-      return b3_not(E::eval_phi1(trace, t));
+      // b3_not is a macro; the operand shall be evaluated only once
+      three_valued_type phi1 = E::eval_phi1(trace, t);
+      return b3_not(phi1);
     };
   };
 
-- 
2.43.0


From dd6bd01752e8adae523c61de2173674571025155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:01 +0000
Subject: [PATCH 09/22] fix: since_less is unknown when the trace starts later
 than t-b and false otherwise

The comparison was the wrong way round.
---
 src/rmtld3/formulas.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index 23e54ec..edcc9f3 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -387,7 +387,7 @@ three_valued_type since_less(T &trace, timespan &t) {
                              // of the subformula
 
   return (eval_c.first == FV_SYMBOL)
-             ? ((eval_c.second < t - b) ? T_UNKNOWN : T_FALSE)
+             ? ((t < b || eval_c.second > t - b) ? T_UNKNOWN : T_FALSE)
              : b4_to_b3(eval_c.first);
 }
 
-- 
2.43.0


From 666ed2e292f0b56681ed4f5d79c8bfa0b4882236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:01 +0000
Subject: [PATCH 10/22] fix: pasteventually_equal evaluates the event in force
 at t-b

It stopped before evaluating that event and returned the value of its successor.
---
 src/rmtld3/formulas.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index edcc9f3..fdbfd10 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -413,9 +413,6 @@ three_valued_type pasteventually_equal(T &trace, timespan &t) {
     if (c_time == t) /* since semantics is strict and non-matching */
       continue;
 
-    if (t>=b && c_time <= t - b)
-      break;
-
     size_t c = trace.get_cursor();
     DEBUGV_RMTLD3("$compute phi\n");
     symbol = E::eval_phi1(trace, c_time);
@@ -424,6 +421,9 @@ three_valued_type pasteventually_equal(T &trace, timespan &t) {
         c); // reset the cursor changes during the evaluation of the subformula
 
     trace.debug();
+
+    if (t>=b && c_time <= t - b) /* the event in force at t-b is evaluated */
+      break;
   } while (trace.decrement_cursor() == trace.AVAILABLE &&
            trace.read(event) == trace.AVAILABLE);
 
-- 
2.43.0


From 20d61260cacb2743d3fc5490558731538d55f48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:02 +0000
Subject: [PATCH 11/22] fix: duration_term counts exactly the intervals inside
 of [t, t+u)

Intervals before t were added when t is not in the first interval, and a window
inside a single interval was counted up to the next event.
---
 src/rmtld3/terms.h | 31 +++++++++----------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/src/rmtld3/terms.h b/src/rmtld3/terms.h
index 9991fc8..a519996 100644
--- a/src/rmtld3/terms.h
+++ b/src/rmtld3/terms.h
@@ -56,35 +56,22 @@ duration duration_term(T &trace, timespan &t) {
     trace.read(event);
     auto c_time = event.getTime();
 
-    // find lower condition
-    if (c_time_prev <= t && t < c_time) {
-      acc.first = (c_time - t) * symbol.first;
-      acc.second = symbol.second;
+    // only the part of [c_time_prev, c_time) inside of [t, t + t_upper) counts
+    auto lower = (c_time_prev > t) ? c_time_prev : t;
+    auto upper = (c_time < t + t_upper) ? c_time : t + t_upper;
 
-      DEBUGV_RMTLD3("dur lower(%ld)\n", c_time_prev);
-    }
-    // find upper condition
-    else if (c_time_prev <= t + t_upper && t + t_upper < c_time) {
-      acc.first += (t + t_upper - c_time_prev) * symbol.first;
+    if (lower < upper) {
+      acc.first += (upper - lower) * symbol.first;
       acc.second |= symbol.second;
+    }
 
-      DEBUGV_RMTLD3("dur upper(%ld)\n", c_time);
+    DEBUGV_RMTLD3("duration=%ld unknown=%d (%d,%d)\n", acc.first, acc.second,
+                  c_time_prev, c_time);
 
-      DEBUGV_RMTLD3("duration=%ld unknown=%d (%d,%d)\n", acc.first, acc.second,
-                    c_time_prev, c_time);
+    if (t + t_upper < c_time)
       break;
-    }
-    // in between
-    else {
-
-      acc.first += (c_time - c_time_prev) * symbol.first;
-      acc.second |= symbol.second;
-    }
 
     symbol = indicator_function(trace, c_time);
-
-    DEBUGV_RMTLD3("duration=%ld unknown=%d (%d,%d)\n", acc.first, acc.second,
-                  c_time_prev, c_time);
   }
 
   // we may have more symbols to see (no conclusion)
-- 
2.43.0


From 0baa89d7fa33540d68ae185ce0257c1b55b6a9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:16 +0000
Subject: [PATCH 12/22] fix: RTML_buffer::debug stays inside of the array of
 N+2 events

---
 src/circularbuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/circularbuffer.h b/src/circularbuffer.h
index 9e5f518..5bc76a7 100644
--- a/src/circularbuffer.h
+++ b/src/circularbuffer.h
@@ -284,7 +284,7 @@ template <typename T, size_t N> void RTML_buffer<T, N>::debug() const {
 
   DEBUGV3("[CONTENT]\n");
   DEBUGV3("----------\n");
-  for (unsigned int idx = 0; idx < size + 2; idx++) {
+  for (unsigned int idx = 0; idx < size + 1; idx++) {
     if (idx % 2 == 0)
       DEBUGV3_APPEND("\n");
     array[idx].debug();
-- 
2.43.0


From 7893dcffb891f856640701f79eb7d1c66288c145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:30 +0000
Subject: [PATCH 13/22] fix: a push waiting for the previous one looks at the
 current page again

A writer preempted between loading the page and the comparison with the
event in the slot kept comparing a slot another writer had overwritten
meanwhile, and span forever.
---
 src/atomic_compat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index aed4569..f8e2bcb 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -255,11 +255,11 @@ union page_t {
       fail = false;                                                            \
     }                                                                          \
                                                                                \
+  /* give a chance to complete the last push if it is not ready yet */         \
+  complete:                                                                    \
     current_page_content = (page_t)std::atomic_load(&buffer.page);             \
     new_page_content = current_page_content;                                   \
                                                                                \
-  /* give a chance to complete the last push if it is not ready yet */         \
-  complete:                                                                    \
     buffer.read(evt, ((state_t *)current_page_content.stateref)->pos);         \
     DEBUGV("%lu\n", ((state_t *)current_page_content.stateref)->pos);          \
     if (!(((state_t *)current_page_content.stateref)->event == evt)) {         \
-- 
2.43.0


From 3e38ecc01b6b836878f53e19fa0ec1fd1bf7f279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:15 +0000
Subject: [PATCH 14/22] fix: a writer never prepares a push in a state block
 that may be current

A preempted writer that had picked the buffer's own block as its scratch
block overwrote it after other writers had made it the current state.
Every writer now alternates between two blocks of its own.
---
 src/atomic_compat.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index f8e2bcb..d2531f2 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -241,8 +241,9 @@ union page_t {
 
 #define ATOMIC_PAGE_SWAP()                                                     \
   typedef typename B::state_t state_t;                                         \
-  state_t state;                                                               \
-  state_t *stateref = &state;
+  /* two blocks, one of them is not the current state of the buffer */         \
+  state_t state[2];                                                            \
+  state_t *stateref = &state[0];
 
 #define ATOMIC_PUSH(body)                                                      \
   bool fail = false;                                                           \
@@ -268,12 +269,12 @@ union page_t {
       goto complete;                                                           \
     }                                                                          \
                                                                                \
-    if (&state == (state_t *)current_page_content.stateref) {                  \
-      /* current state is in use; use buffer state */                          \
-      stateref = (state_t *)&buffer.state_global;                              \
+    if (&state[0] == (state_t *)current_page_content.stateref) {               \
+      /* first block is in use; use the second one */                          \
+      stateref = (state_t *)&state[1];                                         \
     } else {                                                                   \
-      /* use current state */                                                  \
-      stateref = (state_t *)&state;                                            \
+      /* use first block */                                                    \
+      stateref = (state_t *)&state[0];                                         \
     }                                                                          \
                                                                                \
     /* copy state */                                                           \
-- 
2.43.0


From 982a8e96048d122f205127f04a02d92639f2c250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:27 +0000
Subject: [PATCH 15/22] fix: state() returns a consistent pair of bottom and
 top

The state block could be reused by its writer between reading bottom and
top, giving a bottom and a top that never held together.
---
 src/atomic_compat.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index d2531f2..2d55126 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -219,10 +219,15 @@ union page_t {
   ((state_t *)(((page_t)std::atomic_load(&page)).stateref))->bottom
 #define _top() ((state_t *)(((page_t)std::atomic_load(&page)).stateref))->top
 
+/* the state block may be reused while it is read; take it again then */
 #define ATOMIC_TRIPLE(b, t)                                                    \
-  state_t *s = ((state_t *)(((page_t)std::atomic_load(&page)).stateref));      \
-  b = s->bottom;                                                               \
-  t = s->top;
+  page_t seen, now = (page_t)std::atomic_load(&page);                          \
+  do {                                                                         \
+    seen = now;                                                                \
+    b = ((state_t *)seen.stateref)->bottom;                                    \
+    t = ((state_t *)seen.stateref)->top;                                       \
+    now = (page_t)std::atomic_load(&page);                                     \
+  } while (now.wide_uniqueid != seen.wide_uniqueid);
 
 #define ATOMIC_PAGE()                                                          \
   state_t state_global = {                                                     \
-- 
2.43.0


From a3a4eab03ddff67672ef8c770bcc3b2e551efe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:56 +0000
Subject: [PATCH 16/22] fix: a task is UNACTIVATE before its thread can look at
 it

---
 src/task_compat.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/task_compat.h b/src/task_compat.h
index f21fd2c..7030233 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -168,15 +168,13 @@ struct task {
 
     DEBUGV_APPEND("\n");
 
-    st = UNACTIVATE;
-
     return 0;
   }
 
   task(char const *id, void *(*loop)(void *), const int prio,
        const int sch_policy, const useconds_t p, void *payload = NULL)
-      : tid(id), period(p), sched_policy(sch_policy), priority(prio), run(loop),
-        run_payload(payload) {
+      : tid(id), period(p), sched_policy(sch_policy), priority(prio),
+        st(UNACTIVATE), run(loop), run_payload(payload) {
     create_task(
         [](void *tsk) -> void * {
           struct task *ttask = (struct task *)tsk;
-- 
2.43.0


From 9bb35a364d41791baec433d08e6f8e0c41279376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:56 +0000
Subject: [PATCH 17/22] fix: a task disabled before it has started terminates

---
 src/task_compat.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/task_compat.h b/src/task_compat.h
index 7030233..3a9db40 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -190,10 +190,17 @@ struct task {
 
           // trap to block task start
           for (;;) {
-            if (ttask->st == ACTIVATE) {
-              ttask->st = RUNNING;
+            if (__sync_bool_compare_and_swap((unsigned int *)&ttask->st,
+                                             (unsigned int)ACTIVATE,
+                                             (unsigned int)RUNNING))
               break;
+
+            // disabled before it has been started
+            if (ttask->st == ABORT) {
+              ttask->st = ABORTED;
+              return NULL;
             }
+
             nanosleep((const struct timespec[]){{0, 100000L}}, NULL);
           }
 
-- 
2.43.0


From abead66689f93d906f7c6ed16d34c92b95e609be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:56 +0000
Subject: [PATCH 18/22] fix: a spurious wakeup does not end a periodic task

---
 src/task_compat.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/task_compat.h b/src/task_compat.h
index 3a9db40..5edda63 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -242,11 +242,14 @@ struct task {
                            ttask->tid, L(tmp.tv_sec), tmp.tv_nsec);
             }
 
+            int ret;
             pthread_mutex_lock(&ttask->fmtx);
-            pcheck_print(
-                pthread_cond_timedwait(&ttask->cond, &ttask->fmtx, &next),
-                ETIMEDOUT, break;);
+            // wait again when woken up before the release time
+            do {
+              ret = pthread_cond_timedwait(&ttask->cond, &ttask->fmtx, &next);
+            } while (ret == P_OK);
             pthread_mutex_unlock(&ttask->fmtx);
+            pcheck_print(ret, ETIMEDOUT, break;);
 
             if (ttask->st == ABORT) {
               ttask->st = ABORTED;
-- 
2.43.0


From 6892e952fee0fa618a72faf22f19d2e17088acba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:56 +0000
Subject: [PATCH 19/22] fix: enabling a running monitor again leaves it running

---
 src/periodicmonitor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/periodicmonitor.h b/src/periodicmonitor.h
index 7ece78e..996739e 100644
--- a/src/periodicmonitor.h
+++ b/src/periodicmonitor.h
@@ -143,7 +143,7 @@ template <char... name> void *RTML_monitor<name...>::loop(void *ptr) {
 
 template <char... name> int RTML_monitor<name...>::enable() {
 
-  if (_task.st != ACTIVATE)
+  if (_task.st != ACTIVATE && _task.st != RUNNING)
     _task.st = ACTIVATE;
 
   return P_OK;
-- 
2.43.0


From 1c231ea337322fbc63804ad955b60d4619562ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:52 +0000
Subject: [PATCH 20/22] fix: a task reads its period once per release

---
 src/task_compat.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/task_compat.h b/src/task_compat.h
index 5edda63..f4dce99 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -221,7 +221,8 @@ struct task {
             DEBUGV3_APPEND("period=%luus ", ttask->period);
 
             // convert useconds_t to struct timespec
-            useconds_t2timespec(&ttask->period, &tmp);
+            const useconds_t period = ttask->period;
+            useconds_t2timespec(&period, &tmp);
 
             DEBUGV3_APPEND("period=%lus.%luns ", L(tmp.tv_sec), tmp.tv_nsec);
             DEBUGV3_APPEND("old_next=%lus.%luns ", L(next.tv_sec),
-- 
2.43.0


From 9011d07d16070be375827fd649c42c895caec0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:54 +0000
Subject: [PATCH 21/22] fix: pcheck evaluates the checked call once

---
 src/task_compat.h | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/task_compat.h b/src/task_compat.h
index f4dce99..e033fd0 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -70,22 +70,31 @@
 #define P_OK 0
 
 #define pcheck(val)                                                            \
-  if (val != P_OK) {                                                           \
-    DEBUGV("Error: %d\n", val);                                                \
-    return val;                                                                \
+  {                                                                            \
+    const int pcheck_rc = (val);                                               \
+    if (pcheck_rc != P_OK) {                                                   \
+      DEBUGV("Error: %d\n", pcheck_rc);                                        \
+      return pcheck_rc;                                                        \
+    }                                                                          \
   }
 
 #define pcheck_print(val, checkval, extra_action)                              \
-  if (val != checkval) {                                                       \
-    DEBUGV("Error: %d\n", val);                                                \
-    extra_action                                                               \
+  {                                                                            \
+    const int pcheck_rc = (val);                                               \
+    if (pcheck_rc != checkval) {                                               \
+      DEBUGV("Error: %d\n", pcheck_rc);                                        \
+      extra_action                                                             \
+    }                                                                          \
   }
 
 #define pcheck_attr(val, attr)                                                 \
-  if (val != P_OK) {                                                           \
-    DEBUGV("Destroying ERROR:%d\n", val);                                      \
-    pthread_attr_destroy(attr);                                                \
-    return val;                                                                \
+  {                                                                            \
+    const int pcheck_rc = (val);                                               \
+    if (pcheck_rc != P_OK) {                                                   \
+      DEBUGV("Destroying ERROR:%d\n", pcheck_rc);                              \
+      pthread_attr_destroy(attr);                                              \
+      return pcheck_rc;                                                        \
+    }                                                                          \
   }
 
 enum status { ACTIVATE, UNACTIVATE, RUNNING, DELAY, ABORT, ABORTED };
-- 
2.43.0


From be401336d8231070f064b59f194e4aa2dec76b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:54 +0000
Subject: [PATCH 22/22] fix: joining a monitor whose thread could not be
 created fails

---
 src/periodicmonitor.h | 2 +-
 src/task_compat.h     | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/periodicmonitor.h b/src/periodicmonitor.h
index 996739e..c313c39 100644
--- a/src/periodicmonitor.h
+++ b/src/periodicmonitor.h
@@ -172,7 +172,7 @@ void RTML_monitor<name...>::setPeriod(const useconds_t &p) {
 
 template <char... name> int RTML_monitor<name...>::join() {
   void *ret = NULL;
-  if (pthread_join(_task.thread, &ret))
+  if (!_task.created || pthread_join(_task.thread, &ret))
     return 1;
 
   return 0;
diff --git a/src/task_compat.h b/src/task_compat.h
index e033fd0..e4f991d 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -131,6 +131,8 @@ struct task {
 
   pthread_t thread;
 
+  bool created;
+
   pthread_mutex_t fmtx;
 
   pthread_cond_t cond;
@@ -172,6 +174,7 @@ struct task {
     pcheck_attr(pthread_attr_setschedparam(&attribute, &parameter), &attribute);
 
     pcheck_attr(pthread_create(&thread, &attribute, loop, this), &attribute);
+    created = true;
 
     pcheck(pthread_attr_destroy(&attribute));
 
@@ -182,8 +185,8 @@ struct task {
 
   task(char const *id, void *(*loop)(void *), const int prio,
        const int sch_policy, const useconds_t p, void *payload = NULL)
-      : tid(id), period(p), sched_policy(sch_policy), priority(prio),
-        st(UNACTIVATE), run(loop), run_payload(payload) {
+      : created(false), tid(id), period(p), sched_policy(sch_policy),
+        priority(prio), st(UNACTIVATE), run(loop), run_payload(payload) {
     create_task(
         [](void *tsk) -> void * {
           struct task *ttask = (struct task *)tsk;
-- 
2.43.0

