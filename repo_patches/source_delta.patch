From 62017d093a411bb45fda0e544563e935d52e3366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 01/11] fix: repetition no longer drops the errors of items it
 recovered

Once enough items had been matched, the failure of the next separator or
item returned Success even when an earlier item had been recovered, losing
its errors (and tripping the unreachable!() in alternations).
---
 src/algorithm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithm.rs b/src/algorithm.rs
index dbefab8..7ebf4ab 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -217,7 +217,7 @@ where
                         // fail.
                     } else if output.len() >= minimum {
                         // We've already matched enough, we're done.
-                        return parser::Result::Success(output);
+                        break;
                     } else {
                         // We've not matched the minimum amount of repetitions
                         // yet. Getting here also means recovery failed. We
@@ -261,7 +261,7 @@ where
                                 stream.restore(&state);
                             }
                         }
-                        return parser::Result::Success(output);
+                        break;
                     } else {
                         // We've not matched the minimum amount of repetitions
                         // yet. Getting here also means recovery failed. We
-- 
2.43.0


From 4eef64f66976a79b0a3b01f2bea319f235348718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 02/11] fix: try_map() restores the stream when it fails with
 recovery disabled

TryMapResult::Recovered is turned into a failure when recovery is disabled,
but the input matched by the child parser stayed consumed.
---
 src/combinator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/combinator.rs b/src/combinator.rs
index d267a32..d3c2e11 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -290,6 +290,7 @@ where
                     if enable_recovery {
                         parser::Result::Recovered(o, es)
                     } else {
+                        stream.restore(&initial);
                         parser::Result::Failed(stream.index_at(&initial), es)
                     }
                 }
-- 
2.43.0


From 407ed8aa0fb6803b04c9e4edde8805273b89051d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 03/11] fix: Result::try_map() keeps the errors of a recovered
 result

Mapping a recovered result successfully turned it into a plain Success,
losing its errors.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0fffbf0..921b5ae 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -90,7 +90,7 @@ impl<O, E> Result<O, E> {
         match self {
             Result::Success(o) => map(o),
             Result::Recovered(o, mut es) => match map(o) {
-                Result::Success(x) => Result::Success(x),
+                Result::Success(x) => Result::Recovered(x, es),
                 Result::Recovered(x, es2) => {
                     es.extend(es2);
                     Result::Recovered(x, es)
-- 
2.43.0


From c6a8525f1f8100c19e3bd71db8d08976c42ac1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 04/11] fix: alternation reports the furthest failure when it
 cannot be merged

If the furthest alternative did not fail with a single expected-found error,
the failure of the runner-up was returned instead.
---
 src/algorithm.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/algorithm.rs b/src/algorithm.rs
index 7ebf4ab..2f50c34 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -360,7 +360,6 @@ macro_rules! alternate {
             }
             parser::Result::Failed(last_token_matched, vec![e])
         } else {
-            let (last_token_matched, es, _) = failures.into_iter().next().unwrap();
             parser::Result::Failed(last_token_matched, es)
         }
     }};
@@ -435,7 +434,6 @@ where
         }
         parser::Result::Failed(last_token_matched, vec![e])
     } else {
-        let (last_token_matched, es, _) = failures.into_iter().next().unwrap();
         parser::Result::Failed(last_token_matched, es)
     }
 }
-- 
2.43.0


From 089d5f4d67b9cea4ad1f8c17c33670a03c8b6292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 05/11] fix: save_at() survives the buffer being trimmed while
 it reads ahead

Reading ahead may drop tokens from the front of the buffer, after which the
remembered buffer index was stale; the current position was not protected
from being dropped either.
---
 src/stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index f423e90..c299460 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -105,10 +105,10 @@ where
     /// Saves the location at the given current or future token index. Panics if
     /// the given token index lies before the current one.
     pub fn save_at(&mut self, index: usize) -> SavedState {
-        let restore = (self.index, self.index_in_buffer);
+        let initial = self.save();
         self.advance_to(index);
         let state = self.save();
-        (self.index, self.index_in_buffer) = restore;
+        self.restore(&initial);
         state
     }
 
-- 
2.43.0


From f0dea00906de35b63ef4158144b4ff992b295ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 06/11] fix: advance_to() no longer advances past the end of
 the input

The EOF sentinel in the buffer was counted as a token.
---
 src/stream.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/stream.rs b/src/stream.rs
index c299460..16483ef 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -344,7 +344,13 @@ where
 
         // Determine how many tokens we can advance by without refilling the
         // buffer, and do that.
-        let already_buffered = usize::min(self.buffer.len() - self.index_in_buffer, amount);
+        let mut already_buffered = self.buffer.len() - self.index_in_buffer;
+        if self.source_at_eof {
+            // The last entry of the buffer is the EOF sentinel, which cannot
+            // be advanced past.
+            already_buffered -= 1;
+        }
+        let already_buffered = usize::min(already_buffered, amount);
         self.index += already_buffered;
         self.index_in_buffer += already_buffered;
         amount -= already_buffered;
-- 
2.43.0


From 6f13fcdc7af481861855a3af480bcfa64b49f580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 07/11] fix: location_tracker_at() handles states saved at the
 end of the buffer

The token at such a position has not been read from the source yet, so its
location is that of the source.
---
 src/stream.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stream.rs b/src/stream.rs
index 16483ef..5c888bd 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -274,7 +274,10 @@ where
 
         // Return the requested token from the buffer.
         assert!(*saved_state.index >= self.start_of_buffer());
-        &self.buffer[*saved_state.index - self.start_of_buffer()].1
+        self.buffer
+            .get(*saved_state.index - self.start_of_buffer())
+            .map(|(_, x)| x)
+            .unwrap_or(&self.source_location)
     }
 
     /// Returns the current location.
-- 
2.43.0


From dac657b0c85111a5f5b1ddd98c8379fdd477ece3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:17 +0000
Subject: [PATCH 08/11] fix: recovery accepts parsers that report failure index
 0

Failed() documents index 0 as allowed when nothing matched, but recovering
from such a failure anywhere but at the start of the input panicked.
---
 src/combinator.rs | 4 +++-
 src/recovery.rs   | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index d3c2e11..f470e7f 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -697,7 +697,9 @@ where
                     parser::Result::Failed(last_token_matched, errors)
                 } else {
                     let started_at = stream.save();
-                    let mut failed_at = stream.save_at(last_token_matched);
+                    // The parser may report index 0 if it matched nothing.
+                    let failed_index = usize::max(last_token_matched, stream.index());
+                    let mut failed_at = stream.save_at(failed_index);
                     let recovery = recovery::Recover::recover(
                         &self.strategy,
                         &self.parser,
diff --git a/src/recovery.rs b/src/recovery.rs
index b83d034..c978c16 100644
--- a/src/recovery.rs
+++ b/src/recovery.rs
@@ -957,7 +957,9 @@ where
                     if !self.silent {
                         errors.extend(es);
                     }
-                    *failed_at = stream.save_at(i);
+                    // The parser may report index 0 if it matched nothing.
+                    let failed_index = usize::max(i, stream.index());
+                    *failed_at = stream.save_at(failed_index);
                     None
                 }
             })
@@ -1041,7 +1043,9 @@ where
                     if !self.silent {
                         errors.extend(es);
                     }
-                    *failed_at = stream.save_at(i);
+                    // The parser may report index 0 if it matched nothing.
+                    let failed_index = usize::max(i, stream.index());
+                    *failed_at = stream.save_at(failed_index);
                     None
                 }
             })
-- 
2.43.0


From ce8a14ec1f9425237996a6b0a8ef7f2ae8176c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:44 +0000
Subject: [PATCH 09/11] fix: nested_delimiters: a closing delimiter shared by
 several types closes the innermost of them

---
 src/scanner.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index a09921f..3f8efca 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -76,7 +76,7 @@ where
         // See if this is a right delimiter. We already checked whether we
         // have the *correct* right delimiter, so if this matches something is
         // wrong.
-        for (right_index, (_, right)) in self.types.iter().enumerate() {
+        for (_, right) in self.types.iter() {
             if &token == right {
                 // Now we have a decision problem. We can
                 //  1) if there is a delimiter on our stack, treat this right
@@ -95,14 +95,15 @@ where
                 // option 3 if it applies, then option 1 if it applies, and
                 // finally option 2.
 
-                // Try option 3.
+                // Try option 3. Note that multiple delimiter types may share
+                // the same right delimiter.
                 if self
                     .stack
                     .iter()
-                    .any(|(left_index, _, _)| *left_index == right_index)
+                    .any(|(left_index, _, _)| self.types[*left_index].1 == token)
                 {
                     while let Some((left_index, left_token, left_span)) = self.stack.pop() {
-                        if left_index == right_index {
+                        if self.types[left_index].1 == token {
                             // Popped the matching left delimiter.
                             return;
                         }
@@ -118,7 +119,7 @@ where
 
                 // Try option 1.
                 if let Some((left_index, left_token, left_span)) = self.stack.pop() {
-                    assert!(left_index != right_index);
+                    assert!(self.types[left_index].1 != token);
 
                     // Report incorrect delimiter.
                     errors.push(E::unmatched_delimiter_type(
-- 
2.43.0


From 8c690d08d8540bc20a0500df27e6b59d271eafc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:23 +0000
Subject: [PATCH 10/11] fix: do not reserve memory for the minimum of a
 repetition up front

A repetition with a large minimum panicked with a capacity overflow (or ran
out of memory) on every input instead of failing.
---
 src/algorithm.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/algorithm.rs b/src/algorithm.rs
index 2f50c34..8121329 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -177,8 +177,10 @@ where
     // error.
     let mut recovery: Option<Vec<C::Error>> = None;
 
-    // Gather the results in a vector.
-    let mut output = Vec::with_capacity(minimum);
+    // Gather the results in a vector. Don't reserve room for the minimum amount
+    // of items; it may be larger than what fits in memory, while the input may
+    // not have that many.
+    let mut output = Vec::new();
 
     // Parse items.
     loop {
-- 
2.43.0


From 15a19537e62aa66ff9a2d4356ec49e0f53c8e829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:01 +0000
Subject: [PATCH 11/11] fix: just() yields the token it matched

It is documented to return the incoming token, but returned a clone of the
expected one, which differs for tokens whose equality ignores a part of them.
---
 src/primitive.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/primitive.rs b/src/primitive.rs
index 51cc36c..44cf35a 100644
--- a/src/primitive.rs
+++ b/src/primitive.rs
@@ -170,10 +170,11 @@ where
     ) -> parser::Result<Self::Output, E> {
         // Match the incoming token.
         let found = stream.token();
-        if found == Some(&self.expected) {
+        if let Some(found) = found.filter(|found| *found == &self.expected) {
             // Matched successfully, skip past it and return success.
+            let found = found.clone();
             stream.advance();
-            parser::Result::Success(self.expected.clone())
+            parser::Result::Success(found)
         } else {
             // Construct error message.
             let found = found.cloned();
-- 
2.43.0

