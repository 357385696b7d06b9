From 0a34cd17a0208202319d5202c6959d10b0002c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:29 +0000
Subject: [PATCH 01/27] fix: count n-grams over every maximal sequence of words
 justified by an anchor

The right context of an anchor was dropped, overlapping contexts overwrote each
other, and content without an anchor was counted.
---
 src/ngrams.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/ngrams.rs b/src/ngrams.rs
index 2f35338..08ac77f 100644
--- a/src/ngrams.rs
+++ b/src/ngrams.rs
@@ -101,7 +101,8 @@ impl Ngrams {
   pub fn add_anchored_content(&mut self, content: &str) {
     // content to add through the ngram builder
     let mut continuous_buffer = Vec::new();
-    let mut context_window = CircularQueue::with_capacity(self.window_size);
+    // room for the left context and the anchor itself
+    let mut context_window = CircularQueue::with_capacity(self.window_size + 1);
     let mut words_since_anchor_seen = 0;
     let mut side = AnchorSide::Left;
 
@@ -116,22 +117,29 @@ impl Ngrams {
         // we've hit an anchor word, the current content of the window should be analyzed
         words_since_anchor_seen = 0;
         side = AnchorSide::Right;
-        // analyze whatever is in the buffer, and empty it
-        continuous_buffer = context_window.asc_iter().copied().collect();
+        // continue the current sequence with whatever is in the window, and empty it
+        continuous_buffer.extend(context_window.asc_iter().copied());
         context_window.clear();
       } else {
         words_since_anchor_seen += 1;
-        if words_since_anchor_seen == self.window_size && side == AnchorSide::Right {
-          // it has been too long since we saw an anchor, add to the current buffer, record and
-          // reset
-          self.record_words(std::mem::take(&mut continuous_buffer));
-          context_window.clear();
-          side = AnchorSide::Left;
+        if side == AnchorSide::Right {
+          if words_since_anchor_seen == self.window_size {
+            // the right context is complete, the words that follow need another anchor
+            continuous_buffer.extend(context_window.asc_iter().copied());
+            context_window.clear();
+          } else if words_since_anchor_seen > 2 * self.window_size {
+            // no left context of a next anchor can reach back far enough to continue the
+            // sequence, record and reset
+            self.record_words(std::mem::take(&mut continuous_buffer));
+            side = AnchorSide::Left;
+          }
         }
       }
     }
-    // Any remaining content should be added
-    continuous_buffer.extend(context_window.asc_iter().copied());
+    // Any remaining right context should be added
+    if side == AnchorSide::Right && words_since_anchor_seen < self.window_size {
+      continuous_buffer.extend(context_window.asc_iter().copied());
+    }
     self.record_words(std::mem::take(&mut continuous_buffer));
   }
 
-- 
2.43.0


From 71b5dcb9f96740bfe2ed08528eafb2efd9300b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:29 +0000
Subject: [PATCH 02/27] fix: fall back to the generic formula token when all
 lexeme annotations are empty

---
 src/dnm/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dnm/node.rs b/src/dnm/node.rs
index 32c0714..c3a9e73 100644
--- a/src/dnm/node.rs
+++ b/src/dnm/node.rs
@@ -61,7 +61,7 @@ pub fn lexematize_math(node: RoNode, context: &mut Context) -> String {
     })
     .collect::<Vec<String>>()
     .join(" ");
-  if !lexemes.is_empty() {
+  if !lexemes.trim().is_empty() {
     lexemes
   } else {
     // Fallback if no lexemes - a generic substitution
-- 
2.43.0


From 748ffb8990386e85394472d37ca2f5d0dd3f87b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:44 +0000
Subject: [PATCH 03/27] fix: count characters, not bytes, in the tokenizer's
 ranges

DNM ranges are character offsets. Any non-ASCII character shifted all following
sentence and word ranges, or made the tokenizer panic.
---
 src/tokenizer.rs | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 3ab0010..c26044b 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -63,7 +63,7 @@ impl Tokenizer {
     };
     // Don't consider single letters followed by a punctuation sign an end of a
     // sentence, Also "a.m." and "p.m." shouldn't get split
-    ((lw_word.len() == 1) && (lw_word != "I")) || self.abbreviations.is_match(lw_word)
+    ((lw_word.chars().count() == 1) && (lw_word != "I")) || self.abbreviations.is_match(lw_word)
   }
 
   // TODO: Reduce complexity, this tokenization pass is terribly overengineered
@@ -80,7 +80,7 @@ impl Tokenizer {
 
     while let Some(sentence_char) = text_iterator.next() {
       // Bookkeep the end position
-      end += sentence_char.len_utf8();
+      end += 1;
 
       match sentence_char {
         '.' | ':' => {
@@ -89,8 +89,8 @@ impl Tokenizer {
           while text_iterator.peek().unwrap_or(&'.').is_whitespace()
             || text_iterator.peek() == Some(&'\'')
           {
-            let space_char = text_iterator.next().unwrap();
-            end += space_char.len_utf8();
+            text_iterator.next();
+            end += 1;
           }
           if text_iterator.peek().is_none() {
             break;
@@ -205,8 +205,8 @@ impl Tokenizer {
             // second newline
             // Get next non-space character
             while text_iterator.peek().unwrap_or(&'.').is_whitespace() {
-              let space_char = text_iterator.next().unwrap();
-              end += space_char.len_utf8();
+              text_iterator.next();
+              end += 1;
             }
             if text_iterator.peek().is_none() {
               break;
@@ -248,12 +248,12 @@ impl Tokenizer {
               sentences.push(
                 DNMRange {
                   start,
-                  end: end - other_char.len_utf8(),
+                  end: end - 1,
                   dnm,
                 }
                 .trim(),
               );
-              start = end - other_char.len_utf8();
+              start = end - 1;
             }
           }
           // Increment the left window
@@ -285,7 +285,7 @@ impl Tokenizer {
     let mut end = 0usize;
     let mut result: Vec<DNMRange> = Vec::new();
     while let Some(c) = text_iterator.next() {
-      end += c.len_utf8();
+      end += 1;
       if !c.is_alphanumeric() {
         if c == '\'' || c == '’' {
           if let Some(peeked) = text_iterator.peek() {
@@ -294,8 +294,8 @@ impl Tokenizer {
             }
           }
         }
-        if start < end - c.len_utf8() {
-          result.push(sentence_range.get_subrange(start, end - c.len_utf8()));
+        if start < end - 1 {
+          result.push(sentence_range.get_subrange(start, end - 1));
         }
         start = end;
       }
@@ -309,8 +309,7 @@ impl Tokenizer {
   /// returns the words and punctuation of a sentence, using simple heuristics
   #[allow(unused_assignments)]
   pub fn words_and_punct<'b>(&'b self, range: &DNMRange<'b>) -> Vec<DNMRange> {
-    let range_text = range.get_plaintext();
-    let text_iterator = range_text.chars();
+    let range_chars: Vec<char> = range.get_plaintext().chars().collect();
     let mut start = 0usize;
     let mut end = 0usize;
     let mut result: Vec<DNMRange> = Vec::new();
@@ -319,7 +318,7 @@ impl Tokenizer {
       () => {
         if start < end {
           if apostrophe_flag {
-            match &range_text[start + 1..end] {
+            match range_chars[start + 1..end].iter().collect::<String>().as_str() {
               // Handle closed set of apostrophe cases, detach from all other cases
               "t" | "s" | "un" | "th" | "ll" | "d" | "ve" | "il" | "re" | "m" => {},
               _ => {
@@ -335,21 +334,21 @@ impl Tokenizer {
       };
     }
 
-    for c in text_iterator {
+    for &c in &range_chars {
       // letters, numbers can accumulate
       if c.is_alphanumeric() {
-        end += c.len_utf8();
+        end += 1;
       } else {
         // everything else completes a word and starts a new one
         complete_word!();
         // except that whitepace can be skipped over
         if c.is_whitespace() {
-          end += c.len_utf8();
+          end += 1;
           start = end;
         }
         // non-alphanum chars are standalone words EXCEPT when connectors such as apostrophes
         else {
-          end += c.len_utf8();
+          end += 1;
           if c == '\'' || c == '’' {
             apostrophe_flag = true;
           } else {
@@ -384,7 +383,7 @@ fn next_word_with_length(text_iterator: &mut Peekable<Chars>) -> (String, usize)
   while next_word_length < 20 && text_iterator.peek().unwrap_or(&'.').is_alphabetic() {
     let word_char = text_iterator.next().unwrap();
     next_word.push(word_char);
-    next_word_length += word_char.len_utf8();
+    next_word_length += 1;
   }
 
   let next_word: String = next_word.into_iter().collect();
-- 
2.43.0


From 7cb455bbc010327ae968bf67e0bc14b94b1e3e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:44 +0000
Subject: [PATCH 04/27] fix: keep the last sentence when its final characters
 are not letters

The last sentence was dropped unless one of its last eleven characters was a
letter, or when it was a single capitalized stopword.
---
 src/tokenizer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index c26044b..d2908c8 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -266,9 +266,9 @@ impl Tokenizer {
     }
 
     end = cmp::min(end, text.chars().count());
-    let last_left_window: String = left_window.into_iter().collect();
-    if last_left_window.find(char::is_alphabetic).is_some() {
-      sentences.push(DNMRange { start, end, dnm }.trim());
+    let last_sentence = DNMRange { start, end, dnm }.trim();
+    if last_sentence.get_plaintext().contains(char::is_alphabetic) {
+      sentences.push(last_sentence);
     }
 
     // Filter out edge cases that return empty ranges
-- 
2.43.0


From aa5ef283858057eda91eca472830997bed47c1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:44 +0000
Subject: [PATCH 05/27] fix: no empty word after a standalone apostrophe

---
 src/tokenizer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index d2908c8..ec8b997 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -327,7 +327,9 @@ impl Tokenizer {
               },
             }
           }
-          result.push(range.get_subrange(start, end));
+          if start < end {
+            result.push(range.get_subrange(start, end));
+          }
           apostrophe_flag = false;
           start = end;
         }
-- 
2.43.0


From 3adb1f57727ab9eb2844dbc41e75190a120ff510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:52 +0000
Subject: [PATCH 06/27] fix: apply class rules in the order of the class
 attribute

The classes were taken from a HashSet, so that the plaintext of a node with two
special classes differed from run to run.
---
 src/dnm/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dnm/mod.rs b/src/dnm/mod.rs
index b21dcdb..0921631 100644
--- a/src/dnm/mod.rs
+++ b/src/dnm/mod.rs
@@ -316,8 +316,10 @@ impl DNM {
       // recurse_node_create
       let mut rules = Vec::new();
       // First class rules, as more specific
-      for classname in node.get_class_names() {
-        let class_rule = self.parameters.special_tag_class_options.get(&classname);
+      // (in the order of the class attribute, to have a well-defined choice)
+      let class_attribute = node.get_property("class").unwrap_or_default();
+      for classname in class_attribute.split_whitespace() {
+        let class_rule = self.parameters.special_tag_class_options.get(classname);
         rules.push(class_rule);
       }
       // Then element rules as more general
-- 
2.43.0


From 3bcba5010700a77e32754ec19a01ec50f5476c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:52 +0000
Subject: [PATCH 07/27] fix: keep the back mapping aligned when lowercasing
 changes the text length

---
 src/dnm/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dnm/mod.rs b/src/dnm/mod.rs
index 0921631..cdafa5b 100644
--- a/src/dnm/mod.rs
+++ b/src/dnm/mod.rs
@@ -223,6 +223,14 @@ impl DNM {
     self.normalize_unicode(&mut string, &mut offsets);
     self.stem_words(&mut string /* , &mut offsets */);
     if self.parameters.convert_to_lowercase {
+      if self.parameters.support_back_mapping {
+        // a character can have a longer lowercase form
+        offsets = string
+          .chars()
+          .zip(offsets)
+          .flat_map(|(c, offset)| c.to_lowercase().map(move |_| offset))
+          .collect();
+      }
       string = string.to_lowercase();
     }
     self.normalize_whitespace(&mut string, &mut offsets);
-- 
2.43.0


From 2dc867e37144486c164481c9859671996b70bc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:52 +0000
Subject: [PATCH 08/27] fix: count characters, not bytes, when trimming a range

---
 src/dnm/range.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index cbbe6a3..461afc6 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -47,14 +47,14 @@ impl<'dnmrange> DNMRange<'dnmrange> {
 
     for c in range_text.chars() {
       if c.is_whitespace() {
-        trimmed_start += c.len_utf8();
+        trimmed_start += 1;
       } else {
         break;
       }
     }
     for c in range_text.chars().rev() {
       if c.is_whitespace() {
-        trimmed_end -= c.len_utf8();
+        trimmed_end -= 1;
       } else {
         break;
       }
-- 
2.43.0


From cbfd129d76f47cd35cdae07f7ed1f9b7d58a7f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:31 +0000
Subject: [PATCH 09/27] fix: serialize ranges that end at the end of the text
 or right before a token

The former was an out-of-bounds access, the latter came back including the token.
---
 src/dnm/range.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index 461afc6..de91588 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -140,14 +140,31 @@ impl<'dnmrange> DNMRange<'dnmrange> {
     if !self.dnm.parameters.support_back_mapping {
       panic!("DNMRange::serialize: DNM did not generate the back_map");
     }
-    let (node1, offset1) = self.dnm.back_map[self.start];
-    let (node2, offset2) = self.dnm.back_map[self.end];
     DNMRange::create_arange(
-      &DNMRange::serialize_offset(self.dnm.root_node, node1, offset1, false),
-      &DNMRange::serialize_offset(self.dnm.root_node, node2, offset2, true),
+      &self.serialize_position(self.start, false),
+      &self.serialize_position(self.end, true),
     )
   }
 
+  /// Serializes a plaintext position into an xpointer
+  fn serialize_position(&self, position: usize, is_end: bool) -> String {
+    let root_node = self.dnm.root_node;
+    let back_map = &self.dnm.back_map;
+    if position == back_map.len() {
+      // there is no character at the end of the plaintext, point right behind the last one
+      let (node, offset) = back_map[position - 1];
+      let next_offset = if offset < 0 { offset } else { offset + 1 };
+      return DNMRange::serialize_offset(root_node, node, next_offset, true);
+    }
+    let (node, offset) = back_map[position];
+    // a range that ends right before a token does not include the token's node
+    let in_node = match self.dnm.get_range_of_node(node) {
+      Ok(range) => range.start < position,
+      Err(_) => true,
+    };
+    DNMRange::serialize_offset(root_node, node, offset, is_end && in_node)
+  }
+
   /// creates an arange from to xpointers
   pub fn create_arange(from: &str, to: &str) -> String { format!("arange({from},{to})") }
 
-- 
2.43.0


From 8bb3e1d22b16424f3f84981cea22097b5659120e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:59 +0000
Subject: [PATCH 10/27] fix: serialize nodes into XPointers that select the
 intended node

- the end of a range inside a token was the start of the token if it had an id
- comments were addressed like elements
- nodes of a DNM that is not rooted at the document element were not found
- elements named "text" were mixed up with text nodes
- the node behind the last token could be outside of the DNM
---
 src/dnm/range.rs | 53 ++++++++++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index de91588..0ccb1f1 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -184,33 +184,31 @@ impl<'dnmrange> DNMRange<'dnmrange> {
 
   /// serializes a node into an xpath expression
   pub fn serialize_node(root_node: RoNode, node: RoNode, is_end: bool) -> String {
-    match node.get_property("id") {
+    // the end of a node is the start of what follows it
+    let act = if is_end && !node.is_text_node() {
+      get_next_sibling(root_node, node).unwrap_or(node)
+    } else {
+      node
+    };
+    match act.get_property("id") {
       None => {
-        if node == root_node {
-          return "/".to_string();
-        }
-        if node.is_text_node() {
-          let parent = node.get_parent().unwrap();
-          let base = DNMRange::serialize_node(root_node, parent, false /* don't take next */);
+        // XPointers are always relative to the document, not to the root of the DNM
+        let parent = match act.get_parent() {
+          Some(parent) if parent.is_element_node() => parent,
+          _ => return "/".to_string(),
+        };
+        let base = DNMRange::serialize_node(root_node, parent, false /* don't take next */);
+        if act.is_text_node() {
           format!(
             "{}/text()[{}]",
             base,
-            get_node_number(parent, node, &|n: RoNode| n.is_text_node()).unwrap()
+            get_node_number(parent, act, &|n: RoNode| n.is_text_node()).unwrap()
           )
         } else {
-          let act = if is_end {
-            get_next_sibling(root_node, node).unwrap_or(node)
-          } else {
-            node
-          };
-          let parent = act.get_parent().unwrap();
-          let base = DNMRange::serialize_node(root_node, parent, false /* don't take next */);
           format!(
             "{}/{}[{}]",
             base,
-            if act.is_text_node() {
-              "text()".to_string()
-            } else if let Some(ns) = act.get_namespace() {
+            if let Some(ns) = act.get_namespace() {
               let prefix = ns.get_prefix();
               if prefix.is_empty() {
                 // default namespace without prefix
@@ -221,7 +219,9 @@ impl<'dnmrange> DNMRange<'dnmrange> {
             } else {
               act.get_name()
             },
-            get_node_number(parent, act, &|n: RoNode| n.get_name() == act.get_name()).unwrap()
+            get_node_number(parent, act, &|n: RoNode| n.is_element_node()
+              && n.get_name() == act.get_name())
+            .unwrap()
           )
         }
       },
@@ -310,15 +310,14 @@ fn get_position_of_lowest_parent(node: RoNode, dnm: &DNM) -> usize {
 /// Helper function: Returns the next sibling of a node if it exists
 /// (goes up in the tree if required)
 fn get_next_sibling(root_node: RoNode, node: RoNode) -> Option<RoNode> {
+  if node == root_node {
+    dbg!("DNMRange::serialize: Warning: Can't annotate last node in document properly");
+    return None;
+  }
   match node.get_next_sibling() {
-    None => {
-      if node == root_node {
-        dbg!("DNMRange::serialize: Warning: Can't annotate last node in document properly");
-        None
-      } else {
-        get_next_sibling(root_node, node.get_parent().unwrap())
-      }
-    },
+    None => get_next_sibling(root_node, node.get_parent().unwrap()),
+    // comments and the like are not addressed by XPointers
+    Some(n) if !n.is_element_node() && !n.is_text_node() => get_next_sibling(root_node, n),
     Some(n) => Some(n),
   }
 }
-- 
2.43.0


From ec4f8ab4138db61cc584bad9f75bfe0af3ba571c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:47 +0000
Subject: [PATCH 11/27] fix: recognize abbreviations at the start of a line,
 paragraph or sentence

---
 src/tokenizer.rs | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index ec8b997..2664801 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -125,12 +125,12 @@ impl Tokenizer {
                 sentences.push(DNMRange { start, end, dnm }.trim());
                 start = end;
               }
-              // We consumed the next word, so make sure we reflect that in either case:
-              for next_word_char in next_word_string.chars() {
-                left_window.push_back(next_word_char);
-                if left_window.len() >= window_size {
-                  left_window.pop_front();
-                }
+            }
+            // We consumed the next word, so make sure we reflect that in either case:
+            for next_word_char in next_word_string.chars() {
+              left_window.push_back(next_word_char);
+              if left_window.len() >= window_size {
+                left_window.pop_front();
               }
             }
             end += next_word_length;
@@ -219,12 +219,10 @@ impl Tokenizer {
               || next_word_string.starts_with("mathformula")
               || next_word_string.chars().next().unwrap().is_lowercase()
             {
-              // We consumed the next word, add it to the left window
-              for next_word_char in next_word_string.chars() {
-                left_window.push_back(next_word_char);
-                if left_window.len() >= window_size {
-                  left_window.pop_front();
-                }
+              // The line break separates the words
+              left_window.push_back(' ');
+              if left_window.len() >= window_size {
+                left_window.pop_front();
               }
             } else {
               // Sentence-break found:
@@ -234,7 +232,20 @@ impl Tokenizer {
             }
 
             // We consumed the next word, so make sure we reflect that in either case:
+            for next_word_char in next_word_string.chars() {
+              left_window.push_back(next_word_char);
+              if left_window.len() >= window_size {
+                left_window.pop_front();
+              }
+            }
             end += next_word_length;
+          } else if left_window.iter().collect::<String>() != "mathformula" {
+            // A line break separates words, so that an abbreviation at the start of a line is
+            // recognized (but keep the window for the "mathformula\nCapitalized" case)
+            left_window.push_back(' ');
+            if left_window.len() >= window_size {
+              left_window.pop_front();
+            }
           }
         },
         other_char => {
-- 
2.43.0


From e6cf6e643a2e5cec638416ebcc59169d5f1152e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:01 +0000
Subject: [PATCH 12/27] fix: do not treat directories named like documents as
 documents

---
 src/data.rs                 | 2 +-
 src/parallel_data/corpus.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index 36df7a2..ff1b6e7 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -140,7 +140,7 @@ impl<'iter> Iterator for DocumentIterator<'iter> {
         } else {
           file_name.ends_with(".html") || file_name.ends_with(".xhtml")
         };
-        if selected {
+        if selected && entry.path().is_file() {
           let path = entry.path().to_str().unwrap_or("").to_owned();
           let doc_result = Document::new(path, self.corpus);
           return match doc_result {
diff --git a/src/parallel_data/corpus.rs b/src/parallel_data/corpus.rs
index 17559af..e6e4983 100644
--- a/src/parallel_data/corpus.rs
+++ b/src/parallel_data/corpus.rs
@@ -64,7 +64,7 @@ impl Corpus {
           } else {
             file_name.ends_with(".html") || file_name.ends_with(".xhtml")
           };
-          if selected {
+          if selected && entry.path().is_file() {
             let path = entry.path().to_str().unwrap_or("").to_owned();
             if !path.is_empty() {
               return Some(path);
@@ -112,7 +112,7 @@ impl Corpus {
           } else {
             file_name.ends_with(".html") || file_name.ends_with(".xhtml")
           };
-          if selected {
+          if selected && entry.path().is_file() {
             let path = entry.path().to_str().unwrap_or("").to_owned();
             if !path.is_empty() {
               return Some(path);
-- 
2.43.0


From c70080de511806ab06e74aafff47d36a07a8deb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:01 +0000
Subject: [PATCH 13/27] fix: continue the corpus walk after an unparseable file

---
 src/data.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index ff1b6e7..c3b1ac9 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -143,14 +143,11 @@ impl<'iter> Iterator for DocumentIterator<'iter> {
         if selected && entry.path().is_file() {
           let path = entry.path().to_str().unwrap_or("").to_owned();
           let doc_result = Document::new(path, self.corpus);
-          return match doc_result {
-            Ok(doc) => Some(doc),
-            // TODO: Currently encountering an unparseable file will terminate the entire corpus
-            // walk, which is too severe.
-            // A more viable strategy would be to 1) retry creating the document once and 2)
-            // print an error message and continue the walk
-            _ => None,
-          };
+          match doc_result {
+            Ok(doc) => return Some(doc),
+            // an unparseable file should not end the entire corpus walk
+            Err(e) => println!("-- Skipping unparseable file {:?}: {e:?}", entry.path()),
+          }
         }
       } else {
         println!("-- Error while walking for entry: {next_entry:?}")
-- 
2.43.0


From 3e192383dd7bc72e4f25c8259e1c64141bc6b98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:31 +0000
Subject: [PATCH 14/27] fix: skip unparseable files in parallel corpus walks

---
 src/parallel_data/corpus.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/parallel_data/corpus.rs b/src/parallel_data/corpus.rs
index e6e4983..39bc10d 100644
--- a/src/parallel_data/corpus.rs
+++ b/src/parallel_data/corpus.rs
@@ -76,16 +76,23 @@ impl Corpus {
       })
       .enumerate()
       .par_bridge()
-      .map(|each| {
+      .filter_map(|each| {
         let (index, path) = each;
-        let document = Document::new(path, self).unwrap();
+        let document = match Document::new(path.clone(), self) {
+          Ok(document) => document,
+          // an unparseable file should not abort the entire corpus walk
+          Err(e) => {
+            println!("-- Skipping unparseable file {path:?}: {e:?}");
+            return None;
+          },
+        };
         if index % 1000 == 0 && index > 0 {
           println!(
             "-- catalog_with_parallel_walk now processing document {:?}",
             1 + index
           );
         }
-        closure(document)
+        Some(closure(document))
       })
       .reduce(HashMap::new, |mut map1, map2| {
         for (k, v) in map2 {
@@ -124,16 +131,23 @@ impl Corpus {
       })
       .enumerate()
       .par_bridge()
-      .map(|each| {
+      .filter_map(|each| {
         let (index, path) = each;
-        let document = Document::new(path, self).unwrap();
+        let document = match Document::new(path.clone(), self) {
+          Ok(document) => document,
+          // an unparseable file should not abort the entire corpus walk
+          Err(e) => {
+            println!("-- Skipping unparseable file {path:?}: {e:?}");
+            return None;
+          },
+        };
         if index % 1000 == 0 && index > 0 {
           println!(
             "-- catalog_with_parallel_walk now processing document {:?}",
             1 + index
           );
         }
-        closure(document)
+        Some(closure(document))
       })
       .reduce(|| (HashMap::new(),HashMap::new()), |(mut map11, mut map12), (map21,map22)| {
         for (k, v) in map21 {
-- 
2.43.0


From 108404282afe15c64f12b633540a510937942179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:38 +0000
Subject: [PATCH 15/27] fix: do not glue words when stripping numbering and
 plurals from headings

---
 src/util/data_helpers.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/data_helpers.rs b/src/util/data_helpers.rs
index 854ffda..9823458 100644
--- a/src/util/data_helpers.rs
+++ b/src/util/data_helpers.rs
@@ -24,7 +24,7 @@ lazy_static! {
   static ref LEAD_FIXED_PHRASE: Regex = Regex::new(r"^(comparison with|(?:list|summary|outline|sketch|overview|start|end) of|general|other|additional|completion|finishing|first|second|third|new|alternative|chapter|section|some|basic|closely|an|our|the)\s").unwrap();
   static ref TRAILING_FIXED_WORD: Regex = Regex::new(r"\s(see|of|for|of the paper)$").unwrap();
   static ref COMMON_PLURALS : Regex = Regex::new(
-    r"(a(?:xiom|lgorithm|ssumption|pplication)|con(?:jecture|dition|clusion|tribution)|d(?:ata\s?set|efinition|iscussion)|e(?:xperiment|xample|xercise)|lemma|m(?:odel|ethod|otivation)|notation|observation|pr(?:oof|oposition|oblem)|question|re(?:sult|mark)|s(?:ubject|tep|imulation)|theorem|work)s(?:\s|$)"
+    r"(a(?:xiom|lgorithm|ssumption|pplication)|con(?:jecture|dition|clusion|tribution)|d(?:ata\s?set|efinition|iscussion)|e(?:xperiment|xample|xercise)|lemma|m(?:odel|ethod|otivation)|notation|observation|pr(?:oof|oposition|oblem)|question|re(?:sult|mark)|s(?:ubject|tep|imulation)|theorem|work)s(\s|$)"
   ).unwrap();
 }
 
@@ -128,13 +128,13 @@ pub fn heading_from_node_aux(
 /// e.g. "definition xiii a"->"definition"
 #[allow(clippy::cognitive_complexity)]
 pub fn normalize_heading_title(heading: &str) -> String {
-  let simple_heading = ROMAN_NUMERAL.replace_all(heading.trim(), "");
+  let simple_heading = ROMAN_NUMERAL.replace_all(heading.trim(), " ");
   let simple_heading = IS_NUM.replace_all(simple_heading.trim(), " ");
-  let simple_heading = SINGLE_LEAD_LETTER.replace_all(simple_heading.trim(), "");
+  let simple_heading = SINGLE_LEAD_LETTER.replace_all(simple_heading.trim(), " ");
   let simple_heading = SINGLE_TRAIL_LETTER.replace_all(simple_heading.trim(), "");
   let simple_heading = LEAD_FIXED_PHRASE.replace_all(simple_heading.trim(), "");
   let simple_heading = TRAILING_FIXED_WORD.replace_all(simple_heading.trim(), "");
-  let simple_heading = COMMON_PLURALS.replace_all(simple_heading.trim(), "$1");
+  let simple_heading = COMMON_PLURALS.replace_all(simple_heading.trim(), "$1$2");
   if simple_heading.is_empty() {
     // quick exit if empty
     String::new()
-- 
2.43.0


From 5578582b8bfe43c1b7d560b3266c95d1071f3ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:34 +0000
Subject: [PATCH 16/27] fix: honour discard_case=false in
 ams_normalize_word_range

---
 src/util/data_helpers.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/util/data_helpers.rs b/src/util/data_helpers.rs
index 9823458..d11317f 100644
--- a/src/util/data_helpers.rs
+++ b/src/util/data_helpers.rs
@@ -59,16 +59,15 @@ pub fn ams_normalize_word_range(
   context: &mut Context,
   options: LexicalOptions,
 ) -> Result<String, Box<dyn Error>> {
-  let mut word_string = if options.discard_punct {
-    range
-      .get_plaintext()
-      .to_lowercase()
-      .chars()
-      .filter(|c| c.is_alphanumeric()) // drop apostrophes, other noise?
-      .collect::<String>()
-  } else {
+  let mut word_string = if options.discard_case {
     range.get_plaintext().to_lowercase()
+  } else {
+    range.get_plaintext().to_string()
   };
+  if options.discard_punct {
+    // drop apostrophes, other noise?
+    word_string.retain(char::is_alphanumeric);
+  }
   if word_string.len() > MAX_WORD_LENGTH {
     // Using a more aggressive normalization, large words tend to be conversion
     // errors with lost whitespace - drop the entire paragraph when this occurs.
@@ -78,15 +77,16 @@ pub fn ams_normalize_word_range(
   // Note: the formula and citation counts are an approximate lower bound, as
   // sometimes they are not cleanly tokenized, e.g. $k$-dimensional
   // will be the word string "mathformula-dimensional"
-  if word_string.contains("mathformula") {
+  let lower_word = word_string.to_lowercase();
+  if lower_word.contains("mathformula") {
     if options.discard_math {
       word_string = String::new();
     } else {
       word_string = dnm::node::lexematize_math(range.get_node(), context);
     }
-  } else if word_string.contains("citationelement") {
+  } else if lower_word.contains("citationelement") {
     word_string = String::from("citationelement");
-  } else if IS_NUMERIC.is_match(&word_string) {
+  } else if IS_NUMERIC.is_match(&lower_word) {
     word_string = String::from("NUM");
   }
 
-- 
2.43.0


From 3ee0c82c479cf1d2229127a3d6c5621fca076098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:06 +0000
Subject: [PATCH 17/27] fix: word_not matches the words its pattern does not
 match

---
 src/patterns/matching.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/patterns/matching.rs b/src/patterns/matching.rs
index 22e9535..bcd58f4 100644
--- a/src/patterns/matching.rs
+++ b/src/patterns/matching.rs
@@ -445,9 +445,12 @@ fn match_word<'t>(
     WordPattern::WordNot(ref p) => {
       let m = match_word(pf, p, word, range);
       if m.matched {
-        m
-      } else {
         InternalWordMatch::no_match()
+      } else {
+        InternalWordMatch {
+          _matches: Vec::new(),
+          matched: true,
+        }
       }
     },
     WordPattern::Marked(ref p, ref marker) => {
-- 
2.43.0


From e1bf396c2a22eec1e7b920bc0f000514c8774d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:06 +0000
Subject: [PATCH 18/27] fix: math_descendant looks at all descendants

---
 src/patterns/matching.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/patterns/matching.rs b/src/patterns/matching.rs
index bcd58f4..20b5e8c 100644
--- a/src/patterns/matching.rs
+++ b/src/patterns/matching.rs
@@ -584,23 +584,18 @@ fn match_math<'t>(pf: &PatternFile, rule: &MathPattern, node: RoNode) -> Interna
     MathPattern::MathDescendant(ref pattern, ref match_type) => {
       let mut matches: Vec<Match> = Vec::new();
       let mut matched = false;
-      let m = match_math(pf, pattern, node);
-      if m.matched {
-        matched = true;
-        matches.extend_from_slice(&m._matches[..]);
-      }
-      for child in fast_get_non_text_children(node).into_iter() {
-        if matched && match_type == &MathDescendantMatchType::First {
-          return InternalMathMatch {
-            _matches: matches,
-            matched: true,
-          };
-        }
-        let m = match_math(pf, pattern, child);
+      // nodes left to visit, the next one (in document order) last
+      let mut remaining = vec![node];
+      while let Some(cur) = remaining.pop() {
+        let m = match_math(pf, pattern, cur);
         if m.matched {
           matched = true;
           matches.extend_from_slice(&m._matches[..]);
+          if match_type == &MathDescendantMatchType::First {
+            break;
+          }
         }
+        remaining.extend(fast_get_non_text_children(cur).into_iter().rev());
       }
 
       if matched || match_type == &MathDescendantMatchType::Arbitrary {
-- 
2.43.0


From ebad995b64d38f39eb6378de4544cf1abc8e646e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:06 +0000
Subject: [PATCH 19/27] fix: convert senna's byte offsets when matching
 patterns

---
 src/patterns/matching.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/patterns/matching.rs b/src/patterns/matching.rs
index 20b5e8c..45f87ba 100644
--- a/src/patterns/matching.rs
+++ b/src/patterns/matching.rs
@@ -167,6 +167,14 @@ fn get_phrase_matches(root: &PhraseTree, start_pos: usize, target: Phrase) -> Ve
  * MATCHING FUNCTIONS
  */
 
+/// the part of a sentence's range between two of senna's offsets, which are byte offsets
+fn get_text_range<'t>(range: &'t DNMRange, start: usize, end: usize) -> DNMRange<'t> {
+  let text = range.get_plaintext();
+  let char_start = text[..start].chars().count();
+  let char_end = char_start + text[start..end].chars().count();
+  range.get_subrange(char_start, char_end)
+}
+
 /// returns the matches in a sentence
 pub fn match_sentence<'t>(
   pf: &PatternFile,
@@ -315,7 +323,8 @@ fn match_seq<'t>(
           _matches: vec![Match {
             marker: MarkerEnum::Text(TextMarker {
               marker: marker.clone(),
-              range: range.get_subrange(
+              range: get_text_range(
+                range,
                 sentence.get_words()[pos].get_offset_start(),
                 sentence.get_words()[m.end - 1].get_offset_end(),
               ),
@@ -410,7 +419,8 @@ fn match_word<'t>(
       }
     },
     WordPattern::MathWord(ref math_pattern) => {
-      let node = range.dnm.back_map[range.start + word.get_offset_start()].0;
+      let word_range = get_text_range(range, word.get_offset_start(), word.get_offset_end());
+      let node = range.dnm.back_map[word_range.start].0;
       if node.get_name() != "math" {
         return InternalWordMatch::no_match();
       }
@@ -459,7 +469,7 @@ fn match_word<'t>(
         InternalWordMatch {
           _matches: vec![Match {
             marker: MarkerEnum::Text(TextMarker {
-              range: range.get_subrange(word.get_offset_start(), word.get_offset_end()),
+              range: get_text_range(range, word.get_offset_start(), word.get_offset_end()),
               marker: marker.clone(),
             }),
             sub_matches: m._matches,
-- 
2.43.0


From d656b91af07ea8e0dc3d9d80fe27334ee91cf1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:06 +0000
Subject: [PATCH 20/27] fix: mark empty matches with an empty range

---
 src/patterns/matching.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/patterns/matching.rs b/src/patterns/matching.rs
index 45f87ba..bcf6c88 100644
--- a/src/patterns/matching.rs
+++ b/src/patterns/matching.rs
@@ -319,15 +319,22 @@ fn match_seq<'t>(
     SequencePattern::Marked(ref pattern, ref marker) => {
       let m = match_seq(pf, pattern, sentence, phrase_tree, range, pos);
       if m.matched {
+        let words = sentence.get_words();
+        let start = words.get(pos).map_or_else(
+          || words.last().map_or(0, |w| w.get_offset_end()),
+          |w| w.get_offset_start(),
+        );
+        // the match may be empty
+        let end = if m.end > pos {
+          words[m.end - 1].get_offset_end()
+        } else {
+          start
+        };
         InternalSeqMatch {
           _matches: vec![Match {
             marker: MarkerEnum::Text(TextMarker {
               marker: marker.clone(),
-              range: get_text_range(
-                range,
-                sentence.get_words()[pos].get_offset_start(),
-                sentence.get_words()[m.end - 1].get_offset_end(),
-              ),
+              range: get_text_range(range, start, end),
             }),
             sub_matches: m._matches,
           }],
-- 
2.43.0


From 4ea39cca05c5f0b409be6af3acc2ea31ad07d13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:06 +0000
Subject: [PATCH 21/27] fix: keep the markers of the longest alternative if it
 is empty

---
 src/patterns/matching.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/patterns/matching.rs b/src/patterns/matching.rs
index bcf6c88..b996a44 100644
--- a/src/patterns/matching.rs
+++ b/src/patterns/matching.rs
@@ -353,6 +353,7 @@ fn match_seq<'t>(
       for p in patterns {
         let m = match_seq(pf, p, sentence, phrase_tree, range, pos);
         if m.matched {
+          let first_match = !matched;
           matched = true;
           match *match_type {
             SequenceMatchType::First => {
@@ -369,7 +370,7 @@ fn match_seq<'t>(
               matches.extend_from_slice(&m._matches);
             },
             SequenceMatchType::Longest => {
-              if m.end > longest {
+              if first_match || m.end > longest {
                 longest = m.end;
                 matches = m._matches;
               }
-- 
2.43.0


From ee805ba41b28dba3784f9eecd6257385b0e8bd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:33 +0000
Subject: [PATCH 22/27] fix: documents without a root have no sentences and no
 filtered nodes

---
 src/data.rs                   |  6 +++++-
 src/parallel_data/document.rs | 12 ++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index c3b1ac9..0f4c043 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -262,7 +262,11 @@ impl<'d> Document<'d> {
       }
     }
     let tokenizer = &self.corpus.tokenizer;
-    let sentences = tokenizer.sentences(self.dnm.as_ref().unwrap());
+    // a document without a root (e.g. an empty file) has no sentences
+    let sentences = match self.dnm {
+      Some(ref dnm) => tokenizer.sentences(dnm),
+      None => Vec::new(),
+    };
     SentenceIterator {
       walker: sentences.into_iter(),
       document: self,
diff --git a/src/parallel_data/document.rs b/src/parallel_data/document.rs
index c742623..26f4d84 100644
--- a/src/parallel_data/document.rs
+++ b/src/parallel_data/document.rs
@@ -144,7 +144,11 @@ impl<'d> Document<'d> {
       }
     }
     let tokenizer = &self.corpus.tokenizer;
-    let sentences = tokenizer.sentences(self.dnm.as_ref().unwrap());
+    // a document without a root (e.g. an empty file) has no sentences
+    let sentences = match self.dnm {
+      Some(ref dnm) => tokenizer.sentences(dnm),
+      None => Vec::new(),
+    };
     DNMRangeIterator {
       walker: sentences.into_iter(),
       document: self,
@@ -211,8 +215,12 @@ impl<'d> Document<'d> {
   /// descent)
   pub fn filter_iter(&self, filter: &dyn Fn(&RoNode) -> bool) -> RoNodeIterator {
     // TODO: Can this be lazy? Eager for now...
+    let nodes = match self.dom.get_root_readonly() {
+      Some(root) => Document::dfs_filter_nodes(root, filter),
+      None => Vec::new(),
+    };
     RoNodeIterator {
-      walker: Document::dfs_filter_nodes(self.dom.get_root_readonly().unwrap(), filter).into_iter(),
+      walker: nodes.into_iter(),
       document: self,
     }
   }
-- 
2.43.0


From e052fe208f5eee57aacf91a92066d8be2389fc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:36 +0000
Subject: [PATCH 23/27] fix: do not use ids with quotes or commas in XPointers

---
 src/dnm/range.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index 0ccb1f1..b168f6f 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -190,7 +190,8 @@ impl<'dnmrange> DNMRange<'dnmrange> {
     } else {
       node
     };
-    match act.get_property("id") {
+    // ids with a quote or a comma would break the syntax of the XPointer
+    match act.get_property("id").filter(|id| !id.contains(['"', ','])) {
       None => {
         // XPointers are always relative to the document, not to the root of the DNM
         let parent = match act.get_parent() {
-- 
2.43.0


From 0320cf704e19b6031f9d3cbccb33099c6ad57415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 24/27] fix: number elements in XPointers per namespace

---
 src/dnm/range.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index b168f6f..bc69aad 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -221,7 +221,8 @@ impl<'dnmrange> DNMRange<'dnmrange> {
               act.get_name()
             },
             get_node_number(parent, act, &|n: RoNode| n.is_element_node()
-              && n.get_name() == act.get_name())
+              && n.get_name() == act.get_name()
+              && is_selected_with(n, act))
             .unwrap()
           )
         }
@@ -323,6 +324,17 @@ fn get_next_sibling(root_node: RoNode, node: RoNode) -> Option<RoNode> {
   }
 }
 
+/// Helper function: Whether the name test used for a node also selects another
+/// node of the same local name
+fn is_selected_with(other: RoNode, node: RoNode) -> bool {
+  match node.get_namespace() {
+    // elements in a default namespace are selected by their local name
+    Some(ns) if ns.get_prefix().is_empty() => true,
+    Some(ns) => other.get_namespace().map(|o| o.get_href()) == Some(ns.get_href()),
+    None => other.get_namespace().is_none(),
+  }
+}
+
 /// Helper function: Returns the number of a node (the how many-th sibling of
 /// its kind it is)
 fn get_node_number(
-- 
2.43.0


From d79b022d757bae8a7415e72e64da1a88bc8ce3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:11 +0000
Subject: [PATCH 25/27] fix: address the document element and what is directly
 below it

---
 src/dnm/range.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index bc69aad..b55c82d 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -196,9 +196,13 @@ impl<'dnmrange> DNMRange<'dnmrange> {
         // XPointers are always relative to the document, not to the root of the DNM
         let parent = match act.get_parent() {
           Some(parent) if parent.is_element_node() => parent,
-          _ => return "/".to_string(),
+          _ => return "/*[1]".to_string(),
         };
-        let base = DNMRange::serialize_node(root_node, parent, false /* don't take next */);
+        let mut base = DNMRange::serialize_node(root_node, parent, false /* don't take next */);
+        // HTML documents only have one head and one body
+        if base == "/*[1]" && ["head", "body"].contains(&act.get_name().as_str()) {
+          base = "/".to_string();
+        }
         if act.is_text_node() {
           format!(
             "{}/text()[{}]",
-- 
2.43.0


From 2ec43436c9b5eb1eda576f03d38c86c761641fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:31 +0000
Subject: [PATCH 26/27] fix: normalize headings of any length without using up
 the stack

---
 src/util/data_helpers.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/util/data_helpers.rs b/src/util/data_helpers.rs
index d11317f..87fb175 100644
--- a/src/util/data_helpers.rs
+++ b/src/util/data_helpers.rs
@@ -124,10 +124,8 @@ pub fn heading_from_node_aux(
   Some(heading_text)
 }
 
-/// Attempt to recover the "type" of a potentially specialized heading,
-/// e.g. "definition xiii a"->"definition"
-#[allow(clippy::cognitive_complexity)]
-pub fn normalize_heading_title(heading: &str) -> String {
+/// One round of removing numbering, fixed phrases and plurals from a heading
+fn reduce_heading_title(heading: &str) -> String {
   let simple_heading = ROMAN_NUMERAL.replace_all(heading.trim(), " ");
   let simple_heading = IS_NUM.replace_all(simple_heading.trim(), " ");
   let simple_heading = SINGLE_LEAD_LETTER.replace_all(simple_heading.trim(), " ");
@@ -135,13 +133,26 @@ pub fn normalize_heading_title(heading: &str) -> String {
   let simple_heading = LEAD_FIXED_PHRASE.replace_all(simple_heading.trim(), "");
   let simple_heading = TRAILING_FIXED_WORD.replace_all(simple_heading.trim(), "");
   let simple_heading = COMMON_PLURALS.replace_all(simple_heading.trim(), "$1$2");
+  simple_heading.into_owned()
+}
+
+/// Attempt to recover the "type" of a potentially specialized heading,
+/// e.g. "definition xiii a"->"definition"
+#[allow(clippy::cognitive_complexity)]
+pub fn normalize_heading_title(heading: &str) -> String {
+  let mut simple_heading = reduce_heading_title(heading);
+  // if the individual regexes reduced the heading, try them again, since we may have intermixed
+  // cases (in a loop: there can be more rounds than the stack has room for)
+  loop {
+    let reduced = reduce_heading_title(&simple_heading);
+    if reduced == simple_heading {
+      break;
+    }
+    simple_heading = reduced;
+  }
   if simple_heading.is_empty() {
     // quick exit if empty
     String::new()
-  } else if simple_heading != heading {
-    // if the individual regexes reduced the heading, try them again, since we may have intermixed
-    // cases
-    normalize_heading_title(&simple_heading)
   } else {
     // Otherwise, just look for simple variations of known cases, or return as-is:
     match simple_heading.as_ref() {
-- 
2.43.0


From 84e1c38fa2a09c134203663fc0e1fb179607776b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:31 +0000
Subject: [PATCH 27/27] fix: step over any number of comments when serializing
 a range

---
 src/dnm/range.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index b55c82d..bcca54b 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -315,17 +315,17 @@ fn get_position_of_lowest_parent(node: RoNode, dnm: &DNM) -> usize {
 
 /// Helper function: Returns the next sibling of a node if it exists
 /// (goes up in the tree if required)
-fn get_next_sibling(root_node: RoNode, node: RoNode) -> Option<RoNode> {
-  if node == root_node {
-    dbg!("DNMRange::serialize: Warning: Can't annotate last node in document properly");
-    return None;
-  }
-  match node.get_next_sibling() {
-    None => get_next_sibling(root_node, node.get_parent().unwrap()),
-    // comments and the like are not addressed by XPointers
-    Some(n) if !n.is_element_node() && !n.is_text_node() => get_next_sibling(root_node, n),
-    Some(n) => Some(n),
+fn get_next_sibling(root_node: RoNode, mut node: RoNode) -> Option<RoNode> {
+  while node != root_node {
+    match node.get_next_sibling() {
+      None => node = node.get_parent().unwrap(),
+      // comments and the like are not addressed by XPointers
+      Some(n) if !n.is_element_node() && !n.is_text_node() => node = n,
+      Some(n) => return Some(n),
+    }
   }
+  dbg!("DNMRange::serialize: Warning: Can't annotate last node in document properly");
+  None
 }
 
 /// Helper function: Whether the name test used for a node also selects another
-- 
2.43.0

