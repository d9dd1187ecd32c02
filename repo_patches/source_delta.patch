From 7db211eddab8bc6c913d8036a05c069db114c609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 01/49] fix: left truncation windows advance by max_length -
 stride

The loop variable was incremented inside the body, so every window after the
first overlapped one token too many, and an offset of 1 never terminated.
---
 src/utils.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 8d1c6f4..4e8ca60 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -66,8 +66,7 @@ Encoding truncate(Encoding encoding, int max_length, int stride,
       }
     }
   } else if (direction == LEFT_TRUNCATION_DIRECTION) {
-    for (int stop = encoding.ids.size() - 1; stop >= 0; stop -= offset) {
-      stop += 1;
+    for (int stop = encoding.ids.size(); stop > 0; stop -= offset) {
       int start = stop < max_length ? 0 : stop - max_length;
       if (start < stop && !end) {
         end = start == 0;
-- 
2.43.0


From 0d59f45ee3bcf9df74c9c1b72ba4ea10cd458ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 02/49] fix: truncating to zero length keeps no token

truncate() returned the whole encoding when max_length was 0.
---
 src/utils.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 4e8ca60..e53849c 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -51,8 +51,9 @@ Encoding truncate(Encoding encoding, int max_length, int stride,
     return encoding;
   }
   if (max_length == 0) {
-    encoding.overflowing = {};
-    return encoding;
+    Encoding new_encoding;
+    new_encoding.overflowing.push_back(encoding);
+    return new_encoding;
   }
   int offset = max_length - stride;
   bool end = false;
-- 
2.43.0


From f9dc12add87aea314661d74d6d0ea8d2fce4f9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 03/49] fix: reject a truncation stride that is not less than
 max_length

Such a stride made the window loop run forever, growing the list of windows.
---
 src/utils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index e53849c..0b991a8 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -4,6 +4,7 @@
 #include <algorithm>
 #include <memory>
 #include <optional>
+#include <stdexcept>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -55,6 +56,10 @@ Encoding truncate(Encoding encoding, int max_length, int stride,
     new_encoding.overflowing.push_back(encoding);
     return new_encoding;
   }
+  if (stride >= max_length) {
+    throw std::invalid_argument(
+        "stride must be strictly less than max_length");
+  }
   int offset = max_length - stride;
   bool end = false;
   std::vector<std::pair<int, int>> parts_ranges;
-- 
2.43.0


From ced55fc9097084e782680887ab7551816b2b1523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 04/49] fix: byte-level pre-tokenization of non-ASCII text

char is signed, so every byte above 0x7F was looked up under a wrong key and
the lookup threw.
---
 src/pre_tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 01e7054..bab261e 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -265,7 +265,7 @@ PreTokenizedString ByteLevelPreTokenizer::pre_tokenize(
   for (Split& split : pre_tokenized.splits) {
     std::string new_split_normalized;
     for (const char c : split.normalized) {
-      new_split_normalized += BYTES_CHAR.at(static_cast<int>(c));
+      new_split_normalized += BYTES_CHAR.at(static_cast<unsigned char>(c));
     }
     split.normalized = new_split_normalized;
   }
-- 
2.43.0


From af294967c76b83a95607898a65aeaa97fc017432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 05/49] fix: byte-level decoding of the characters above U+00FF

The lookup key was the code point truncated to one byte, so the characters that
stand for control bytes and the space were decoded to wrong bytes. A token with
a character outside the alphabet now keeps its own bytes.
---
 src/decoder.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/decoder.cpp b/src/decoder.cpp
index 65b6665..1fa9621 100644
--- a/src/decoder.cpp
+++ b/src/decoder.cpp
@@ -203,15 +203,19 @@ std::vector<std::string> ByteLevelDecoder::decode_chain(
   std::string result;
   for (const auto& token : tokens) {
     icu::UnicodeString unicode_token = icu::UnicodeString::fromUTF8(token);
+    std::string bytes;
+    bool is_byte_level = true;
     for (int i = 0; i < unicode_token.length(); i++) {
-      auto ch = unicode_token.char32At(i);
-      auto it = CHAR_BYTES.find(std::string(1, ch));
-      if (it != CHAR_BYTES.end()) {
-        result.push_back(static_cast<char>(it->second));
-      } else {
-        result.push_back(ch);
+      std::string token_char;
+      unicode_token.tempSubString(i, 1).toUTF8String(token_char);
+      auto it = CHAR_BYTES.find(token_char);
+      if (it == CHAR_BYTES.end()) {
+        is_byte_level = false;
+        break;
       }
+      bytes.push_back(static_cast<char>(it->second));
     }
+    result += is_byte_level ? bytes : token;
   }
 
   return {result};
-- 
2.43.0


From f7b0959740bc76ca3cc8673d32cc97d8021f180b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 06/49] fix: merging a word without symbols

symbols.size() - 1 wrapped around, so an empty word was read out of bounds.
---
 src/model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.cpp b/src/model.cpp
index 9d5850c..0f5046a 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -229,7 +229,7 @@ void Word::merge_all(
     float dropout) {
   std::priority_queue<Merge> queue;
   std::vector<Merge> skip;
-  for (int i = 0; i < symbols.size() - 1; i++) {
+  for (int i = 0; i + 1 < symbols.size(); i++) {
     std::pair<int, int> pair = {symbols[i].c, symbols[i + 1].c};
     auto it = merges.find(pair);
     if (it != merges.end()) {
-- 
2.43.0


From 9cae3ebe3f56eee74f8f9406a5f6abd3d81673f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 07/49] fix: apply BPE merges in rank order, leftmost first

---
 include/tokenizers/model.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/tokenizers/model.h b/include/tokenizers/model.h
index 1690ece..a7d5038 100644
--- a/include/tokenizers/model.h
+++ b/include/tokenizers/model.h
@@ -67,7 +67,11 @@ class Merge {
   int rank;
   int new_id;
   Merge(int pos, int rank, int new_id);
-  bool operator<(const Merge &other) const { return rank < other.rank; }
+  // std::priority_queue pops the greatest element: the lowest rank, and among
+  // equal ranks the leftmost position, has to come first.
+  bool operator<(const Merge &other) const {
+    return rank != other.rank ? rank > other.rank : pos > other.pos;
+  }
 };
 
 struct PairHash {
-- 
2.43.0


From 629d09bf128ce399f9e4713748e143dd70180b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 08/49] fix: BPE starts from characters instead of bytes

A multi-byte character was looked up byte by byte, so no such character was
ever found in the vocabulary (among them the byte-level space).
---
 src/model.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/model.cpp b/src/model.cpp
index 0f5046a..a06579f 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -339,8 +339,12 @@ Word BPE::merge_word(std::string sequence) const {
   int length = sequence.size();
   Word word;
   std::optional<std::pair<int, int>> unk;
-  for (int i = 0; i < length; i++) {
-    int end = (i + 1 < length) ? i + 1 : length;
+  for (int i = 0, end = 0; i < length; i = end) {
+    end = i + 1;
+    while (end < length &&
+           (static_cast<unsigned char>(sequence[end]) & 0xC0) == 0x80) {
+      end++;
+    }
     bool is_first = (i == 0);
     bool is_last = (end == length);
 
-- 
2.43.0


From 454715dcbea02777ef108222dbf055973659a77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 09/49] fix: BPE byte fallback

The byte was streamed as a character, so "<0xNN>" was never looked up. The
bytes of a character are now used only when all of them are known, and after
the unknown token that is still pending.
---
 src/model.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/model.cpp b/src/model.cpp
index a06579f..a2ac345 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -4,6 +4,7 @@
 #include <unicode/uchar.h>
 #include <unicode/unistr.h>
 
+#include <iomanip>
 #include <iostream>
 #include <memory>
 #include <optional>
@@ -371,23 +372,31 @@ Word BPE::merge_word(std::string sequence) const {
         std::vector<std::optional<int>> tokens;
         for (auto b : sub_sequence) {
           std::ostringstream oss;
-          oss << "<" << std::hex << std::setw(4) << std::setfill('0') << b
-              << ">";
+          oss << "<0x" << std::hex << std::uppercase << std::setw(2)
+              << std::setfill('0')
+              << static_cast<int>(static_cast<unsigned char>(b)) << ">";
           auto code = oss.str();
           auto token_it = vocab.find(code);
           tokens.push_back((token_it != vocab.end())
                                ? std::optional<int>(token_it->second)
                                : std::nullopt);
         }
-        bool added = false;
+        bool all_found = true;
         for (auto& token : tokens) {
-          if (token.has_value()) {
-            word.add(token.value(), 1);
-            added = true;
+          if (!token.has_value()) {
+            all_found = false;
           }
         }
-        if (added)
+        if (all_found) {
+          if (unk.has_value()) {
+            word.add(unk->first, unk->second);
+            unk.reset();
+          }
+          for (auto& token : tokens) {
+            word.add(token.value(), 1);
+          }
           continue;
+        }
       }
       if (unk_token.size() != 0) {
         if (unk.has_value() && fuse_unk) {
-- 
2.43.0


From f8f89fb611b70b13c18c9e34f9cdfb469e8b31f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 10/49] fix: offsets of a word that BPE takes whole from the
 vocabulary

---
 src/model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.cpp b/src/model.cpp
index a2ac345..a707c7b 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -435,7 +435,7 @@ std::vector<Token> BPE::tokenize_with_cache(const std::string& sequence) const {
   if (ignore_merges) {
     auto it = vocab.find(sequence);
     if (it != vocab.end()) {
-      return {Token(it->second, sequence, {0, 0})};
+      return {Token(it->second, sequence, {0, sequence.length()})};
     }
   }
   auto it = cache.find(sequence);
-- 
2.43.0


From fed4d015ec657707f24e79c3df986b6813461994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 11/49] fix: the models keep the tokens of added-token segments

A segment that already carries its added token was tokenized again, which lost
the token whenever it is matched together with surrounding spaces or is not in
the vocabulary of the model.
---
 src/model.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/model.cpp b/src/model.cpp
index a707c7b..e7ffc78 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -143,6 +143,9 @@ WordPiece::WordPiece(const std::unordered_map<std::string, int>& vocab,
 
 PreTokenizedString WordPiece::tokenize(PreTokenizedString pre_tokenized) const {
   for (auto& split : pre_tokenized.splits) {
+    if (!split.tokens.empty()) {
+      continue;
+    }
     icu::UnicodeString unicode_sequence =
         icu::UnicodeString::fromUTF8(split.normalized);
     int char_len = unicode_sequence.length();
@@ -450,6 +453,9 @@ std::vector<Token> BPE::tokenize_with_cache(const std::string& sequence) const {
 
 PreTokenizedString BPE::tokenize(PreTokenizedString pre_tokenized) const {
   for (auto& split : pre_tokenized.splits) {
+    if (!split.tokens.empty()) {
+      continue;
+    }
     std::string sequence = split.normalized;
     if (dropout == 0.0f) {
       split.tokens = tokenize_with_cache(sequence);
-- 
2.43.0


From 9b7e6572e5de4d27fcf742ab7ed79608d62fa2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 12/49] fix: BPE token offsets are in characters like all other
 offsets

They were counted in bytes and added to the character offset of the word.
---
 src/model.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/model.cpp b/src/model.cpp
index e7ffc78..039ce8a 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -4,6 +4,7 @@
 #include <unicode/uchar.h>
 #include <unicode/unistr.h>
 
+#include <algorithm>
 #include <iomanip>
 #include <iostream>
 #include <memory>
@@ -451,6 +452,27 @@ std::vector<Token> BPE::tokenize_with_cache(const std::string& sequence) const {
   return result;
 }
 
+// Turns offsets counted in bytes into offsets counted in characters.
+std::vector<Token> with_char_offsets(std::vector<Token> tokens,
+                                     const std::string& sequence) {
+  int length = sequence.length();
+  std::vector<int> chars_before = {0};
+  std::vector<bool> inside_char;
+  for (int i = 0; i < length; i++) {
+    bool inside = (static_cast<unsigned char>(sequence[i]) & 0xC0) == 0x80;
+    inside_char.push_back(inside);
+    chars_before.push_back(chars_before[i] + (inside ? 0 : 1));
+  }
+  inside_char.push_back(false);
+  for (Token& token : tokens) {
+    int first = std::min(token.offsets.first, length);
+    int second = std::min(token.offsets.second, length);
+    token.offsets = {chars_before[first] - (inside_char[first] ? 1 : 0),
+                     chars_before[second]};
+  }
+  return tokens;
+}
+
 PreTokenizedString BPE::tokenize(PreTokenizedString pre_tokenized) const {
   for (auto& split : pre_tokenized.splits) {
     if (!split.tokens.empty()) {
@@ -458,10 +480,10 @@ PreTokenizedString BPE::tokenize(PreTokenizedString pre_tokenized) const {
     }
     std::string sequence = split.normalized;
     if (dropout == 0.0f) {
-      split.tokens = tokenize_with_cache(sequence);
+      split.tokens = with_char_offsets(tokenize_with_cache(sequence), sequence);
     } else {
       auto word = merge_word(sequence);
-      split.tokens = word_to_tokens(word);
+      split.tokens = with_char_offsets(word_to_tokens(word), sequence);
     }
   }
   return pre_tokenized;
-- 
2.43.0


From 7cba36883fe5bd253aa62fafe1bf91bd9447d723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 13/49] fix: template processing keeps the overflowing windows

They were dropped; each of them now gets the template as well.
---
 src/post_processor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/post_processor.cpp b/src/post_processor.cpp
index 135c730..749e3be 100644
--- a/src/post_processor.cpp
+++ b/src/post_processor.cpp
@@ -182,6 +182,10 @@ Encoding TemplateProcessing::process(Encoding encoding,
     }
   }
   Encoding result;
+  for (const Encoding& overflowing_encoding : encoding.overflowing) {
+    result.overflowing.push_back(
+        process(overflowing_encoding, add_special_tokens));
+  }
   for (Encoding final_encoding : final_encodings) {
     result.ids.insert(result.ids.end(), final_encoding.ids.begin(),
                       final_encoding.ids.end());
-- 
2.43.0


From 5c27894544e0da22f046625215b3be28ffb0873b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 14/49] fix: encoding an empty text

The offsets of a split without tokens were read out of bounds.
---
 src/tokenizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index e5ffd6d..88bea44 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -137,6 +137,9 @@ Encoding into_encoding(PreTokenizedString pre_tokenized,
   Encoding encoding;
   for (int idx = 0; idx < pre_tokenized.splits.size(); idx++) {
     Split split = pre_tokenized.splits[idx];
+    if (split.tokens.empty()) {
+      continue;
+    }
     std::pair<int, int> transformed_split_offset = {
         pre_tokenized.normalized
             .offsets[pre_tokenized.normalized.offset_ranges[split.offsets.first]
-- 
2.43.0


From 7ff36ae59b9f4d7548391c497ddc177c99110457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 15/49] fix: decoding without added tokens, without a decoder
 or with unknown ids

All three dereferenced a null pointer or an empty optional. Ids without a token
are skipped.
---
 src/tokenizer.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index 88bea44..7cda73e 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -108,18 +108,24 @@ std::string Tokenizer::decode(const std::vector<int>& ids,
                               bool skip_special_tokens) {
   std::vector<std::string> tokens;
   for (int id : ids) {
-    std::string token = "";
-    std::optional<std::string> av_token = added_vocabulary->id_to_token(id);
-    if (!av_token.has_value()) {
-      token = model->id_to_token(id).value();
-    } else {
-      token = av_token.value();
+    std::optional<std::string> token;
+    if (added_vocabulary != nullptr) {
+      token = added_vocabulary->id_to_token(id);
+    }
+    if (!token.has_value() && model != nullptr) {
+      token = model->id_to_token(id);
     }
-    if (!skip_special_tokens || !added_vocabulary->is_special_token(token)) {
-      tokens.push_back(token);
+    if (!token.has_value()) {
+      continue;
     }
+    if (!skip_special_tokens || added_vocabulary == nullptr ||
+        !added_vocabulary->is_special_token(token.value())) {
+      tokens.push_back(token.value());
+    }
+  }
+  if (decoder != nullptr) {
+    tokens = decoder->decode_chain(tokens);
   }
-  tokens = decoder->decode_chain(tokens);
   return std::accumulate(tokens.begin(), tokens.end(), std::string{});
 }
 
-- 
2.43.0


From aad6574301525abde81b2bb538f9c2dfe7159775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 16/49] fix: adding the tokens of the configuration

The tokenizer passes added_tokens itself, which add_tokens appends to while it
iterates over it.
---
 src/added_vocabulary.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index d7f86b5..1048e20 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -54,7 +54,9 @@ std::optional<std::string> AddedVocabulary::id_to_token(int id) {
 
 int AddedVocabulary::add_tokens(const std::vector<AddedToken>& tokens,
                                 Model* model, Normalizer* normalizer) {
-  for (auto token : tokens) {
+  // the tokens may be this->added_tokens, which grows below
+  const std::vector<AddedToken> new_tokens = tokens;
+  for (auto token : new_tokens) {
     if (token.special && !token.content.empty() &&
         special_tokens_set.count(token.content) != 1) {
       special_tokens.push_back(token);
@@ -63,7 +65,7 @@ int AddedVocabulary::add_tokens(const std::vector<AddedToken>& tokens,
   }
 
   int ignored = 0;
-  for (auto token : tokens) {
+  for (auto token : new_tokens) {
     if (token.content.empty()) {
       ignored++;
       continue;
@@ -100,7 +102,7 @@ int AddedVocabulary::add_tokens(const std::vector<AddedToken>& tokens,
 
   refresh_added_tokens(model, normalizer);
 
-  return tokens.size() - ignored;
+  return new_tokens.size() - ignored;
 }
 
 void AddedVocabulary::refresh_added_tokens(Model* model,
-- 
2.43.0


From fe0eece00fd84d265b6167bd146fe0c35e12da3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 17/49] fix: first added token of a model with an empty
 vocabulary

The maximum of an empty map was dereferenced.
---
 src/added_vocabulary.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index 1048e20..20315b6 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -84,9 +84,8 @@ int AddedVocabulary::add_tokens(const std::vector<AddedToken>& tokens,
                               const std::pair<std::string, int>& b) {
                              return a.second < b.second;
                            });
-      if (model->get_vocab_size() == 0 ||
-          (max_val_token != added_tokens_map.end() &&
-           max_val_token->second >= model->get_vocab_size())) {
+      if (max_val_token != added_tokens_map.end() &&
+          max_val_token->second >= model->get_vocab_size()) {
         new_id = max_val_token->second + 1;
       } else {
         new_id = model->get_vocab_size();
-- 
2.43.0


From 1222542963b16c0390be3545516fa78116cef99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 18/49] fix: find added tokens that are not in the vocabulary
 of the model

Only tokens the model already knows were ever searched for, so a token that got
a new id was never produced.
---
 src/added_vocabulary.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index 20315b6..2dec87e 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -108,22 +108,22 @@ void AddedVocabulary::refresh_added_tokens(Model* model,
                                            Normalizer* normalizer) {
   std::vector<std::pair<AddedToken, int>> normalized, non_normalized;
   for (auto token : special_tokens) {
-    auto id = model->token_to_id(token.content);
-    if (id.has_value()) {
+    auto id = added_tokens_map.find(token.content);
+    if (id != added_tokens_map.end()) {
       if (token.normalized) {
-        normalized.push_back({token, id.value()});
+        normalized.push_back({token, id->second});
       } else {
-        non_normalized.push_back({token, id.value()});
+        non_normalized.push_back({token, id->second});
       }
     }
   }
   for (auto token : added_tokens) {
-    auto id = model->token_to_id(token.content);
-    if (id.has_value()) {
+    auto id = added_tokens_map.find(token.content);
+    if (id != added_tokens_map.end()) {
       if (token.normalized) {
-        normalized.push_back({token, id.value()});
+        normalized.push_back({token, id->second});
       } else {
-        non_normalized.push_back({token, id.value()});
+        non_normalized.push_back({token, id->second});
       }
     }
   }
-- 
2.43.0


From e03b24901a25653d011af82cdff11f0082e927dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 19/49] fix: find added tokens anywhere in the text, the
 longest first

A token was only found at the start, after a space or after another token, never
when it contains a space, and a token that another one starts with hid it.
---
 src/added_vocabulary.cpp | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index 2dec87e..0ce089b 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -177,29 +177,26 @@ AddedVocabulary::find_matches(
     std::pair<std::vector<std::string>, std::vector<int>> split_re) {
   // TODO(omkar): update to find matches from trie
   std::vector<std::tuple<int, int, int>> matches;
-  std::unordered_map<std::string, int> word_ids;
-  for (int i = 0; i < split_re.first.size(); ++i) {
-    word_ids[split_re.first[i]] = split_re.second[i];
-  }
   icu::UnicodeString unicode_sentence = icu::UnicodeString::fromUTF8(sentence);
-  int i = 0, cur = 0;
-  while (i < unicode_sentence.length()) {
-    std::string sub_sentence;
-    unicode_sentence.tempSubString(cur, i - cur).toUTF8String(sub_sentence);
-    if (word_ids.count(sub_sentence) > 0) {
-      matches.push_back({cur, i, word_ids[sub_sentence]});
-      cur = i;
-    }
-    if (unicode_sentence[i] == ' ') {
-      cur = i + 1;
-    }
-    i++;
+  std::vector<icu::UnicodeString> words;
+  for (const std::string& word : split_re.first) {
+    words.push_back(icu::UnicodeString::fromUTF8(word));
   }
-  if (i != cur) {
-    std::string sub_sentence;
-    unicode_sentence.tempSubString(cur, i - cur).toUTF8String(sub_sentence);
-    if (word_ids.count(sub_sentence) > 0) {
-      matches.push_back({cur, i, word_ids[sub_sentence]});
+  int cur = 0;
+  while (cur < unicode_sentence.length()) {
+    int longest = 0, longest_id = 0;
+    for (int i = 0; i < words.size(); ++i) {
+      if (words[i].length() > longest &&
+          unicode_sentence.tempSubString(cur, words[i].length()) == words[i]) {
+        longest = words[i].length();
+        longest_id = split_re.second[i];
+      }
+    }
+    if (longest > 0) {
+      matches.push_back({cur, cur + longest, longest_id});
+      cur += longest;
+    } else {
+      cur++;
     }
   }
   std::vector<std::pair<std::optional<int>, std::pair<int, int>>> result;
-- 
2.43.0


From fdc49f251958e4391b3d353e4cc35822485f6100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 20/49] fix: single-word, lstrip and rstrip added tokens next
 to non-ASCII text

Character positions were used as byte positions of the UTF-8 text.
---
 src/added_vocabulary.cpp | 48 ++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index 0ce089b..8923d7b 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -7,7 +7,6 @@
 #include <algorithm>
 #include <memory>
 #include <optional>
-#include <regex>
 #include <string>
 #include <tuple>
 #include <unordered_map>
@@ -145,30 +144,34 @@ void AddedVocabulary::refresh_added_tokens(Model* model,
   split_non_normalized_trie = {non_normalized_tokens, non_normalized_ids};
 }
 
-bool ends_with_word(std::string sentence) {
-  return std::regex_search(sentence, std::regex("\\w$"));
+bool is_word_char(UChar32 c) {
+  return u_hasBinaryProperty(c, UCHAR_ALPHABETIC) ||
+         (U_GET_GC_MASK(c) & (U_GC_M_MASK | U_GC_ND_MASK | U_GC_PC_MASK)) != 0;
 }
 
-bool starts_with_word(std::string sentence) {
-  return std::regex_search(sentence, std::regex("^\\w"));
+bool ends_with_word(const icu::UnicodeString& sentence) {
+  int length = sentence.length();
+  return length > 0 && is_word_char(sentence[length - 1]);
 }
 
-size_t space_leftmost_at_end(std::string sentence) {
-  std::smatch match;
-  if (std::regex_search(sentence, match, std::regex("\\s*$"))) {
-    return match.position();
-  } else {
-    return sentence.length();
+bool starts_with_word(const icu::UnicodeString& sentence) {
+  return sentence.length() > 0 && is_word_char(sentence[0]);
+}
+
+int space_leftmost_at_end(const icu::UnicodeString& sentence) {
+  int start = sentence.length();
+  while (start > 0 && u_isUWhiteSpace(sentence[start - 1])) {
+    start--;
   }
+  return start;
 }
 
-size_t space_rightmost_at_start(std::string sentence) {
-  std::smatch match;
-  if (std::regex_search(sentence, match, std::regex("^\\s*"))) {
-    return match.length();
-  } else {
-    return 0;
+int space_rightmost_at_start(const icu::UnicodeString& sentence) {
+  int stop = 0;
+  while (stop < sentence.length() && u_isUWhiteSpace(sentence[stop])) {
+    stop++;
   }
+  return stop;
 }
 
 std::vector<std::pair<std::optional<int>, std::pair<int, int>>>
@@ -211,19 +214,20 @@ AddedVocabulary::find_matches(
     }
     if (added_token.single_word) {
       bool start_space =
-          start == 0 || !ends_with_word(sentence.substr(0, start));
-      bool stop_space =
-          stop == sentence.length() || !starts_with_word(sentence.substr(stop));
+          start == 0 ||
+          !ends_with_word(unicode_sentence.tempSubString(0, start));
+      bool stop_space = stop == unicode_sentence.length() ||
+                        !starts_with_word(unicode_sentence.tempSubString(stop));
       if (!stop_space || !start_space) {
         continue;
       }
     }
     if (added_token.lstrip) {
-      int new_start = space_leftmost_at_end(sentence.substr(0, start));
+      int new_start = space_leftmost_at_end(unicode_sentence.tempSubString(0, start));
       start = std::max(new_start, start_offset);
     }
     if (added_token.rstrip) {
-      stop += space_rightmost_at_start(sentence.substr(stop));
+      stop += space_rightmost_at_start(unicode_sentence.tempSubString(stop));
     }
     if (start_offset < start) {
       result.push_back({std::nullopt, {start_offset, start}});
-- 
2.43.0


From b16c29513562660cf80a7c42d479aed370d94702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 21/49] fix: added-token segments do not overlap

A token that starts with the spaces that an rstrip token before it took was cut
out a second time.
---
 src/added_vocabulary.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index 8923d7b..26bd761 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -207,6 +207,9 @@ AddedVocabulary::find_matches(
   for (auto match : matches) {
     int start = std::get<0>(match), stop = std::get<1>(match),
         id = std::get<2>(match);
+    if (start < start_offset) {
+      continue;
+    }
     AddedToken added_token = added_tokens_map_r[id];
     if (encode_special_tokens &&
         special_tokens_set.count(added_token.content) > 0) {
@@ -223,7 +226,8 @@ AddedVocabulary::find_matches(
       }
     }
     if (added_token.lstrip) {
-      int new_start = space_leftmost_at_end(unicode_sentence.tempSubString(0, start));
+      int new_start =
+          space_leftmost_at_end(unicode_sentence.tempSubString(0, start));
       start = std::max(new_start, start_offset);
     }
     if (added_token.rstrip) {
-- 
2.43.0


From b79bda318ec20ba6d30e3f017c6dea6e9b52c85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 22/49] fix: alignment of the text after characters that BERT
 cleaning removes

Erasing did not move the ranges of the following characters, and the index of
the next character to erase did not account for the ones already erased.
---
 include/tokenizers/normalizer.h |  1 +
 src/normalizer.cpp              | 29 ++++++++++++++++++++++++++---
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/include/tokenizers/normalizer.h b/include/tokenizers/normalizer.h
index 8031913..0dee131 100644
--- a/include/tokenizers/normalizer.h
+++ b/include/tokenizers/normalizer.h
@@ -43,6 +43,7 @@ class NormalizedString {
   NormalizedString(std::wstring normalized,
                    const std::vector<std::pair<int, int>> &offsets);
   void transform(int i, std::string op, int n);
+  void replace_range(int i, int length, int new_length);
   void transform_range(std::pair<int, int> original_offsets,
                        NormalizedString sub_normalized);
 };
diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 0e7f22a..984e693 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -201,13 +201,35 @@ void NormalizedString::transform_range(std::pair<int, int> original_offsets,
                  sub_normalized.offsets.begin(), sub_normalized.offsets.end());
 }
 
+// Aligns the new_length characters that replace the length characters from i on
+// with the part of the original text that those were aligned with.
+void NormalizedString::replace_range(int i, int length, int new_length) {
+  int size = offset_ranges.size();
+  int start = i < size ? offset_ranges[i].first : offsets.size();
+  int end =
+      i + length < size ? offset_ranges[i + length].first : offsets.size();
+  std::vector<std::pair<int, int>> new_offsets, new_offset_ranges;
+  for (int j = 0; j < new_length; j++) {
+    new_offsets.push_back({offsets[start].first, offsets[end - 1].second});
+    new_offset_ranges.push_back({start + j, 1});
+  }
+  offsets.erase(offsets.begin() + start, offsets.begin() + end);
+  offsets.insert(offsets.begin() + start, new_offsets.begin(),
+                 new_offsets.end());
+  offset_ranges.erase(offset_ranges.begin() + i,
+                      offset_ranges.begin() + i + length);
+  offset_ranges.insert(offset_ranges.begin() + i, new_offset_ranges.begin(),
+                       new_offset_ranges.end());
+  for (int j = i + new_length; j < offset_ranges.size(); j++) {
+    offset_ranges[j].first += new_length - (end - start);
+  }
+}
+
 void NormalizedString::transform(int i, std::string op, int n) {
   int start = offset_ranges[i].first;
   int limit = offset_ranges[i].second;
   if (op == "erase") {
-    offsets.erase(offsets.begin() + start, offsets.begin() + start + limit);
-    offset_ranges.erase(offset_ranges.begin() + i,
-                        offset_ranges.begin() + i + 1);
+    replace_range(i, 1, 0);
   } else if (op == "pad") {
     std::pair<int, int> offset = offsets[start];
     std::vector<std::pair<int, int>> new_offsets(2, offset);
@@ -465,6 +487,7 @@ NormalizedString BertNormalizer::do_clean_text(NormalizedString normalized) {
       }
     } else {
       normalized.transform(i, "erase", 0);
+      continue;
     }
     i++;
   }
-- 
2.43.0


From f9c902d96dfecf5713d408edd53bf593d3543f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 23/49] fix: alignment of the text after Unicode normalization

Every change was taken for one character that becomes two, also by NFC, which
misaligned everything after any other change.
---
 src/normalizer.cpp | 105 +++++++++++++--------------------------------
 1 file changed, 31 insertions(+), 74 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 984e693..485611f 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -1,6 +1,7 @@
 // Copyright 2024 Omkar Prabhu
 #include "tokenizers/normalizer.h"
 
+#include <unicode/normalizer2.h>
 #include <unicode/normlzr.h>
 #include <unicode/uchar.h>
 #include <unicode/unistr.h>
@@ -245,13 +246,9 @@ void NormalizedString::transform(int i, std::string op, int n) {
           offset_ranges[j - 1].first + offset_ranges[j - 1].second;
     }
   } else if (op == "grow") {
-    std::vector<std::pair<int, int>> new_offset_ranges = {{start, 1},
-                                                          {start + 1, 1}};
-    offset_ranges.erase(offset_ranges.begin() + i);
-    offset_ranges.insert(offset_ranges.begin() + i, new_offset_ranges.begin(),
-                         new_offset_ranges.end());
+    replace_range(i, 1, 2);
   } else if (op == "shrink") {
-    offset_ranges.erase(offset_ranges.begin() + i);
+    replace_range(i, 1, 0);
   } else if (op == "add" || op == "replace") {
     std::vector<std::pair<int, int>> new_offset_ranges = {{start, n}};
     if (op == "add") {
@@ -271,6 +268,30 @@ void NormalizedString::transform(int i, std::string op, int n) {
   }
 }
 
+// Aligns each piece of text between two normalization boundaries with the
+// characters it is normalized to.
+void align_normalized(NormalizedString* normalized,
+                      const icu::Normalizer2* normalizer) {
+  UErrorCode status = U_ZERO_ERROR;
+  const std::wstring& text = normalized->normalized;
+  int start = 0, position = 0;
+  while (start < text.length()) {
+    icu::UnicodeString piece(static_cast<UChar32>(text[start]));
+    int stop = start + 1;
+    while (stop < text.length() &&
+           !normalizer->hasBoundaryBefore(static_cast<UChar32>(text[stop]))) {
+      piece.append(static_cast<UChar32>(text[stop]));
+      stop++;
+    }
+    int length = normalizer->normalize(piece, status).countChar32();
+    if (length != stop - start) {
+      normalized->replace_range(position, stop - start, length);
+    }
+    position += length;
+    start = stop;
+  }
+}
+
 NFC::NFC() {}
 
 NormalizedString NFC::normalize(NormalizedString normalized) const {
@@ -288,23 +309,7 @@ NormalizedString NFC::normalize(NormalizedString normalized) const {
   result.resize(unicode_normalized.countChar32());
   unicode_normalized.toUTF32(reinterpret_cast<UChar32*>(&result[0]),
                              unicode_normalized.countChar32(), status);
-  int oi = 0, ni = 0;
-  std::vector<int> grow_ids;
-  while (oi < normalized.normalized.length() && ni < result.length()) {
-    if (normalized.normalized[oi] == result[ni]) {
-      oi++;
-      ni++;
-    } else {
-      grow_ids.push_back(oi);
-      oi++;
-      ni += 2;
-    }
-  }
-  int multi = 0;
-  for (auto i : grow_ids) {
-    normalized.transform(i + multi, "grow", 0);
-    multi += 1;
-  }
+  align_normalized(&normalized, icu::Normalizer2::getNFCInstance(status));
   normalized.normalized = result;
   return normalized;
 }
@@ -326,23 +331,7 @@ NormalizedString NFD::normalize(NormalizedString normalized) const {
   result.resize(unicode_normalized.countChar32());
   unicode_normalized.toUTF32(reinterpret_cast<UChar32*>(&result[0]),
                              unicode_normalized.countChar32(), status);
-  int oi = 0, ni = 0;
-  std::vector<int> grow_ids;
-  while (oi < normalized.normalized.length() && ni < result.length()) {
-    if (normalized.normalized[oi] == result[ni]) {
-      oi++;
-      ni++;
-    } else {
-      grow_ids.push_back(oi);
-      oi++;
-      ni += 2;
-    }
-  }
-  int multi = 0;
-  for (auto i : grow_ids) {
-    normalized.transform(i + multi, "grow", 0);
-    multi += 1;
-  }
+  align_normalized(&normalized, icu::Normalizer2::getNFDInstance(status));
   normalized.normalized = result;
   return normalized;
 }
@@ -364,23 +353,7 @@ NormalizedString NFKC::normalize(NormalizedString normalized) const {
   result.resize(unicode_normalized.countChar32());
   unicode_normalized.toUTF32(reinterpret_cast<UChar32*>(&result[0]),
                              unicode_normalized.countChar32(), status);
-  int oi = 0, ni = 0;
-  std::vector<int> grow_ids;
-  while (oi < normalized.normalized.length() && ni < result.length()) {
-    if (normalized.normalized[oi] == result[ni]) {
-      oi++;
-      ni++;
-    } else {
-      grow_ids.push_back(oi);
-      oi++;
-      ni += 2;
-    }
-  }
-  int multi = 0;
-  for (auto i : grow_ids) {
-    normalized.transform(i + multi, "grow", 0);
-    multi += 1;
-  }
+  align_normalized(&normalized, icu::Normalizer2::getNFKCInstance(status));
   normalized.normalized = result;
   return normalized;
 }
@@ -402,23 +375,7 @@ NormalizedString NFKD::normalize(NormalizedString normalized) const {
   result.resize(unicode_normalized.countChar32());
   unicode_normalized.toUTF32(reinterpret_cast<UChar32*>(&result[0]),
                              unicode_normalized.countChar32(), status);
-  int oi = 0, ni = 0;
-  std::vector<int> grow_ids;
-  while (oi < normalized.normalized.length() && ni < result.length()) {
-    if (normalized.normalized[oi] == result[ni]) {
-      oi++;
-      ni++;
-    } else {
-      grow_ids.push_back(oi);
-      oi++;
-      ni += 2;
-    }
-  }
-  int multi = 0;
-  for (auto i : grow_ids) {
-    normalized.transform(i + multi, "grow", 0);
-    multi += 1;
-  }
+  align_normalized(&normalized, icu::Normalizer2::getNFKDInstance(status));
   normalized.normalized = result;
   return normalized;
 }
-- 
2.43.0


From dd69ea77949e985d6216478cb1a504fc1e86581f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 24/49] fix: Strip removes white space only, together with its
 alignment

The character was cut to its lowest byte, so that for example U+0120 was taken
for a space, and the alignment kept the characters that were removed.
---
 src/normalizer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 485611f..507b955 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -577,17 +577,19 @@ NormalizedString Strip::normalize(NormalizedString normalized) const {
   int start = 0, end = normalized.normalized.size();
   if (strip_left) {
     while (start < normalized.normalized.size() &&
-           std::isspace(
-               static_cast<unsigned char>(normalized.normalized[start]))) {
+           u_isUWhiteSpace(
+               static_cast<UChar32>(normalized.normalized[start]))) {
       ++start;
     }
   }
   if (strip_right) {
-    while (end > start && std::isspace(static_cast<unsigned char>(
+    while (end > start && u_isUWhiteSpace(static_cast<UChar32>(
                               normalized.normalized[end - 1]))) {
       --end;
     }
   }
+  normalized.replace_range(end, normalized.normalized.size() - end, 0);
+  normalized.replace_range(0, start, 0);
   normalized.normalized = normalized.normalized.substr(start, end - start);
   return normalized;
 }
-- 
2.43.0


From 1415966eca9481e3c360159b585941259d1d7f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 25/49] fix: StripAccents removes the alignment of the
 characters it removes

---
 src/normalizer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 507b955..c94cc0c 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -603,6 +603,8 @@ NormalizedString StripAccents::normalize(NormalizedString normalized) const {
   for (wchar_t ch : normalized.normalized) {
     if (!isCombiningMark(ch)) {
       result += ch;
+    } else {
+      normalized.transform(result.length(), "erase", 0);
     }
   }
   normalized.normalized = result;
-- 
2.43.0


From e8f11d4539f5a69fbbfc74e355539b9e74058600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 26/49] fix: Prepend on an empty text and with more than one
 character

The first range of an empty text was read out of bounds, and a longer prefix got
a single range.
---
 src/normalizer.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index c94cc0c..7b35b75 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -536,9 +536,14 @@ NormalizedString SequenceNormalizer::normalize(
 Prepend::Prepend(const std::string& prepend) : prepend(prepend) {}
 
 NormalizedString Prepend::normalize(NormalizedString normalized) const {
-  std::wstring result = convert_from_string(prepend) + normalized.normalized;
-  normalized.transform(0, "add", prepend.length());
-  normalized.normalized = result;
+  if (normalized.normalized.empty()) {
+    return normalized;
+  }
+  std::wstring prefix = convert_from_string(prepend);
+  for (int i = 0; i < prefix.length(); i++) {
+    normalized.transform(0, "add", 1);
+  }
+  normalized.normalized = prefix + normalized.normalized;
   return normalized;
 }
 
-- 
2.43.0


From d3390a17dc236d380ee439a26d1e304e854f962f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 27/49] fix: Replace replaces every occurrence of a literal
 text

The text was changed while it was searched, only its first character was
removed, and the text was taken for a regular expression.
---
 src/normalizer.cpp | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 7b35b75..8424c66 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -12,7 +12,6 @@
 #include <memory>
 #include <numeric>
 #include <optional>
-#include <regex>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -551,27 +550,22 @@ Replace::Replace(const std::string& pattern, const std::string& content)
     : pattern(pattern), content(content) {}
 
 NormalizedString Replace::normalize(NormalizedString normalized) const {
-  std::wregex regex_pattern(convert_from_string(pattern));
-  std::vector<int> replace_ids;
-  std::wsregex_iterator it(normalized.normalized.begin(),
-                           normalized.normalized.end(), regex_pattern);
-  std::wsregex_iterator end;
-  std::wstring replace_content = convert_from_string(content);
-  while (it != end) {
-    std::wsmatch match = *it;
-    replace_ids.push_back(match.position());
-    normalized.normalized.erase(normalized.normalized.begin() +
-                                match.position());
-    normalized.normalized.insert(
-        normalized.normalized.begin() + match.position(),
-        replace_content.begin(), replace_content.end());
-    ++it;
-  }
-  int multi = 0;
-  for (auto i : replace_ids) {
-    normalized.transform(i + multi, "replace", content.length());
-    multi += replace_content.length();
+  std::wstring from = convert_from_string(pattern);
+  std::wstring to = convert_from_string(content);
+  std::wstring result;
+  int i = 0;
+  while (i < normalized.normalized.length()) {
+    if (!from.empty() &&
+        normalized.normalized.compare(i, from.length(), from) == 0) {
+      normalized.replace_range(result.length(), from.length(), to.length());
+      result += to;
+      i += from.length();
+    } else {
+      result.push_back(normalized.normalized[i]);
+      i++;
+    }
   }
+  normalized.normalized = result;
   return normalized;
 }
 
-- 
2.43.0


From 14d275bd0189f4d55bee05a6a1ce66e386877a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 28/49] fix: BERT lowercasing of non-ASCII text

---
 src/normalizer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 8424c66..c065479 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -512,7 +512,9 @@ NormalizedString BertNormalizer::do_strip_accents(NormalizedString normalized) {
 
 NormalizedString BertNormalizer::do_lowercase(NormalizedString normalized) {
   std::wstring result = normalized.normalized;
-  std::transform(result.begin(), result.end(), result.begin(), std::towlower);
+  std::transform(result.begin(), result.end(), result.begin(), [](wchar_t c) {
+    return static_cast<wchar_t>(u_tolower(static_cast<UChar32>(c)));
+  });
   normalized.normalized = result;
   return normalized;
 }
-- 
2.43.0


From 7ab4ab0e70c989d27f6b332c582decc35c00a466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 29/49] fix: BERT cleaning of non-ASCII white space and control
 characters

---
 src/normalizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index c065479..7a25e58 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -409,7 +409,7 @@ bool is_whitespace(wchar_t c) {
     case L'\r':
       return true;
     default:
-      return std::iswspace(c);
+      return u_isUWhiteSpace(static_cast<UChar32>(c));
   }
 }
 
@@ -420,7 +420,7 @@ bool is_control(wchar_t c) {
     case L'\r':
       return false;
     default:
-      return std::iswcntrl(c);
+      return (U_GET_GC_MASK(static_cast<UChar32>(c)) & U_GC_C_MASK) != 0;
   }
 }
 
-- 
2.43.0


From 5151d4b28aa3a1b5d2e4d1effc429b1ae1b52e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 30/49] fix: alignment and text after the normalization of a
 part of the text

---
 src/normalizer.cpp | 61 ++++++++++++++++------------------------------
 1 file changed, 21 insertions(+), 40 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 7a25e58..9b3d4bc 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -153,52 +153,33 @@ void NormalizedString::transform_range(std::pair<int, int> original_offsets,
                                        NormalizedString sub_normalized) {
   int original_start = original_offsets.first;
   int original_end = original_offsets.second;
-  int offsets_start = offset_ranges[original_start].first;
-  int offsets_end = original_end == offset_ranges.size()
-                        ? offset_ranges[original_end - 1].first
-                        : offset_ranges[original_end].first;
-  std::vector<std::pair<int, int>> new_offset_ranges;
-  for (int i = 0; i < sub_normalized.offset_ranges.size(); i++) {
-    if (i == 0) {
-      sub_normalized.offset_ranges[i].first =
-          offset_ranges[original_start].first;
-    } else {
-      sub_normalized.offset_ranges[i].first =
-          sub_normalized.offset_ranges[i - 1].first +
-          sub_normalized.offset_ranges[i - 1].second;
-    }
-    new_offset_ranges.push_back(sub_normalized.offset_ranges[i]);
-  }
-  int j = new_offset_ranges.size();
-  for (int i = original_end; i < offset_ranges.size(); i++) {
-    new_offset_ranges.push_back(
-        {new_offset_ranges[j - 1].first + new_offset_ranges[j - 1].second,
-         offset_ranges[i].second});
-    j++;
-  }
-  std::pair<int, int> prev;
-  for (int i = 0; i < sub_normalized.offsets.size(); i++) {
-    if (i == 0) {
-      prev = sub_normalized.offsets[i];
-      sub_normalized.offsets[i].first = offsets[offsets_start].first;
-      sub_normalized.offsets[i].second = offsets[offsets_start].second;
-    } else {
-      if (prev == sub_normalized.offsets[i]) {
-        sub_normalized.offsets[i] = sub_normalized.offsets[i - 1];
-      } else {
-        prev = sub_normalized.offsets[i];
-        sub_normalized.offsets[i] = {sub_normalized.offsets[i - 1].second,
-                                     sub_normalized.offsets[i - 1].second + 1};
-      }
-    }
+  int size = offset_ranges.size();
+  int offsets_start = original_start < size
+                          ? offset_ranges[original_start].first
+                          : offsets.size();
+  int offsets_end =
+      original_end < size ? offset_ranges[original_end].first : offsets.size();
+  int shift = offsets_start < offsets_end ? offsets[offsets_start].first : 0;
+  int added = sub_normalized.offsets.size();
+  for (std::pair<int, int>& offset : sub_normalized.offsets) {
+    offset = {offset.first + shift, offset.second + shift};
+  }
+  for (std::pair<int, int>& offset_range : sub_normalized.offset_ranges) {
+    offset_range.first += offsets_start;
+  }
+  for (int i = original_end; i < size; i++) {
+    offset_ranges[i].first += added - (offsets_end - offsets_start);
   }
   offset_ranges.erase(offset_ranges.begin() + original_start,
-                      offset_ranges.end());
+                      offset_ranges.begin() + original_end);
   offset_ranges.insert(offset_ranges.begin() + original_start,
-                       new_offset_ranges.begin(), new_offset_ranges.end());
+                       sub_normalized.offset_ranges.begin(),
+                       sub_normalized.offset_ranges.end());
   offsets.erase(offsets.begin() + offsets_start, offsets.begin() + offsets_end);
   offsets.insert(offsets.begin() + offsets_start,
                  sub_normalized.offsets.begin(), sub_normalized.offsets.end());
+  normalized.replace(original_start, original_end - original_start,
+                     sub_normalized.normalized);
 }
 
 // Aligns the new_length characters that replace the length characters from i on
-- 
2.43.0


From 0a779b04899123b7624309b43f1434d14a61713c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 31/49] fix: alignment of the characters above U+FFFF

---
 src/normalizer.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 9b3d4bc..00a523b 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -44,13 +44,10 @@ NORMALIZER get_normalizer(std::string type) {
 
 NormalizedString::NormalizedString(std::wstring normalized)
     : normalized(normalized) {
-  icu::UnicodeString unicode_normalized = icu::UnicodeString::fromUTF32(
-      reinterpret_cast<const UChar32*>(normalized.c_str()),
-      normalized.length());
   int idx = 0;
-  for (int i = 0; i < unicode_normalized.length(); i++) {
+  for (int i = 0; i < normalized.length(); i++) {
     icu::UnicodeString unicode_normalized_str;
-    unicode_normalized_str.append(unicode_normalized.char32At(i));
+    unicode_normalized_str.append(static_cast<UChar32>(normalized[i]));
     std::string normalized_str;
     unicode_normalized_str.toUTF8String(normalized_str);
     offset_ranges.push_back({idx, normalized_str.length()});
-- 
2.43.0


From 9d9bbda6aa151311a941ec050cae0f9851f5ba0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 32/49] fix: offsets of the splits after characters above
 U+FFFF

---
 src/pre_tokenizer.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index bab261e..6412274 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -166,10 +166,11 @@ std::vector<Split> split_normalized(
       unicode_normalized
           .tempSubStringBetween(match.first.first, match.first.second)
           .toUTF8String(split_unicode_normalized);
-      new_splits.push_back(
-          Split(split_unicode_normalized,
-                {match.first.first + original_split.offsets.first,
-                 match.first.second + original_split.offsets.first}));
+      int start = unicode_normalized.countChar32(0, match.first.first);
+      int stop = unicode_normalized.countChar32(0, match.first.second);
+      new_splits.push_back(Split(split_unicode_normalized,
+                                 {start + original_split.offsets.first,
+                                  stop + original_split.offsets.first}));
     }
   }
   return new_splits;
-- 
2.43.0


From 198f32f0ae793caa3e2a66736943c281147fdb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 33/49] fix: added tokens after characters above U+FFFF

---
 src/added_vocabulary.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index 26bd761..5e25b1b 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -151,11 +151,11 @@ bool is_word_char(UChar32 c) {
 
 bool ends_with_word(const icu::UnicodeString& sentence) {
   int length = sentence.length();
-  return length > 0 && is_word_char(sentence[length - 1]);
+  return length > 0 && is_word_char(sentence.char32At(length - 1));
 }
 
 bool starts_with_word(const icu::UnicodeString& sentence) {
-  return sentence.length() > 0 && is_word_char(sentence[0]);
+  return sentence.length() > 0 && is_word_char(sentence.char32At(0));
 }
 
 int space_leftmost_at_end(const icu::UnicodeString& sentence) {
@@ -243,6 +243,10 @@ AddedVocabulary::find_matches(
   if (start_offset != total_len) {
     result.push_back({std::nullopt, {start_offset, total_len}});
   }
+  for (auto& element : result) {
+    element.second = {unicode_sentence.countChar32(0, element.second.first),
+                      unicode_sentence.countChar32(0, element.second.second)};
+  }
   return result;
 }
 
-- 
2.43.0


From 665693bc78c135d0824612c26e7a7455d79fe09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 34/49] fix: offsets of added tokens are in characters

---
 src/added_vocabulary.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index 5e25b1b..7c06f61 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -270,7 +270,8 @@ PreTokenizedString AddedVocabulary::extract_and_normalize(
     if (match.first.has_value()) {
       Split new_split = Split(value, match.second);
       new_split.tokens = {
-          Token(match.first.value(), value, {0, value.length()})};
+          Token(match.first.value(), value,
+                {0, match.second.second - match.second.first})};
       non_normalized_splits.push_back(new_split);
     } else {
       non_normalized_splits.push_back(Split(value, match.second));
@@ -285,10 +286,10 @@ PreTokenizedString AddedVocabulary::extract_and_normalize(
   for (const Split& original_split : pre_tokenized.splits) {
     if (original_split.tokens.size() > 0) {
       Split new_split = original_split;
-      new_split.offsets = {ending_idx,
-                           ending_idx + new_split.normalized.length()};
+      int length = new_split.offsets.second - new_split.offsets.first;
+      new_split.offsets = {ending_idx, ending_idx + length};
       normalized_splits.push_back(new_split);
-      ending_idx += new_split.normalized.length();
+      ending_idx += length;
     } else {
       NormalizedString split_normalized =
           NormalizedString(convert_from_string(original_split.normalized));
@@ -312,7 +313,8 @@ PreTokenizedString AddedVocabulary::extract_and_normalize(
               Split(value, {match.second.first + new_split_offset.first,
                             match.second.second + new_split_offset.first});
           new_split.tokens = {
-              Token(match.first.value(), value, {0, value.length()})};
+              Token(match.first.value(), value,
+                    {0, match.second.second - match.second.first})};
           normalized_splits.push_back(new_split);
         } else {
           normalized_splits.push_back(
-- 
2.43.0


From 90ad8b32e37eedec4f7cb73467169247f511f33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 35/49] fix: a text that normalizes to nothing has no splits

---
 src/added_vocabulary.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index 7c06f61..0e05da0 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -325,9 +325,7 @@ PreTokenizedString AddedVocabulary::extract_and_normalize(
       ending_idx += split_normalized.normalized.length();
     }
   }
-  if (normalized_splits.size() > 0) {
-    pre_tokenized.splits = normalized_splits;
-  }
+  pre_tokenized.splits = normalized_splits;
 
   return pre_tokenized;
 }
-- 
2.43.0


From 93248f8ea7cff749a9f8b7bf29825c1eedadf746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 36/49] fix: byte-level pre-tokenization keeps the added tokens

---
 src/pre_tokenizer.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 6412274..d245626 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -248,12 +248,18 @@ ByteLevelPreTokenizer::ByteLevelPreTokenizer(bool add_prefix_space,
 
 PreTokenizedString ByteLevelPreTokenizer::pre_tokenize(
     PreTokenizedString pre_tokenized) const {
-  if (add_prefix_space &&
-      !std::iswspace(pre_tokenized.normalized.normalized.at(0))) {
-    pre_tokenized.normalized.normalized =
-        std::wstring(L" ") + pre_tokenized.normalized.normalized;
-    pre_tokenized.normalized.transform(0, "add", std::wstring(L" ").length());
-    pre_tokenized = PreTokenizedString(pre_tokenized.normalized);
+  int shift = 0;
+  for (Split& split : pre_tokenized.splits) {
+    split.offsets.first += shift;
+    if (add_prefix_space && split.tokens.empty() && !split.normalized.empty() &&
+        !u_isUWhiteSpace(static_cast<UChar32>(
+            pre_tokenized.normalized.normalized.at(split.offsets.first)))) {
+      pre_tokenized.normalized.normalized.insert(split.offsets.first, 1, L' ');
+      pre_tokenized.normalized.transform(split.offsets.first, "add", 1);
+      split.normalized = " " + split.normalized;
+      shift++;
+    }
+    split.offsets.second += shift;
   }
   auto matches_regex = [this](icu::UnicodeString input)
       -> std::vector<std::pair<std::pair<int, int>, bool>> {
@@ -264,6 +270,9 @@ PreTokenizedString ByteLevelPreTokenizer::pre_tokenize(
   };
   pre_tokenized.split(matches_regex, SPLIT_DELIMITER_BEHAVIOR::ISOLATED);
   for (Split& split : pre_tokenized.splits) {
+    if (!split.tokens.empty()) {
+      continue;
+    }
     std::string new_split_normalized;
     for (const char c : split.normalized) {
       new_split_normalized += BYTES_CHAR.at(static_cast<unsigned char>(c));
-- 
2.43.0


From 68a2aecc359ec4b62fdd3248c5a92fa7daa028e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 37/49] fix: splitting by an invalid regex

---
 src/pre_tokenizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index d245626..9ddca40 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -106,6 +106,9 @@ std::vector<std::pair<std::pair<int, int>, bool>> find_matches(
   UErrorCode status = U_ZERO_ERROR;
   icu::RegexPattern* unicode_pattern = icu::RegexPattern::compile(
       icu::UnicodeString::fromUTF8(regex), 0, status);
+  if (U_FAILURE(status)) {
+    throw std::invalid_argument("invalid regex: " + regex);
+  }
   icu::RegexMatcher* matcher = unicode_pattern->matcher(input, status);
   while (matcher->find(status)) {
     matches.push_back({matcher->start(status), matcher->end(status)});
-- 
2.43.0


From 066bf63f1d3af4bcfa63451732884220622f6772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 38/49] fix: truncating without a known direction

---
 src/utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 0b991a8..7c1960c 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -63,7 +63,7 @@ Encoding truncate(Encoding encoding, int max_length, int stride,
   int offset = max_length - stride;
   bool end = false;
   std::vector<std::pair<int, int>> parts_ranges;
-  if (direction == RIGHT_TRUNCATION_DIRECTION) {
+  if (direction != LEFT_TRUNCATION_DIRECTION) {
     for (int start = 0; start < encoding.ids.size(); start += offset) {
       if (!end) {
         int stop = std::min(start + max_length, encoding_length);
@@ -71,7 +71,7 @@ Encoding truncate(Encoding encoding, int max_length, int stride,
         parts_ranges.push_back({start, stop});
       }
     }
-  } else if (direction == LEFT_TRUNCATION_DIRECTION) {
+  } else {
     for (int stop = encoding.ids.size(); stop > 0; stop -= offset) {
       int start = stop < max_length ? 0 : stop - max_length;
       if (start < stop && !end) {
-- 
2.43.0


From 509d9359cc72f11c6ea4efb700979fbc29588001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 39/49] fix: normalizing without added tokens

---
 src/tokenizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index 7cda73e..786c1f8 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -96,6 +96,9 @@ Encoding Tokenizer::encode(const std::wstring& sequence,
   if (added_vocabulary != nullptr) {
     pre_tokenized =
         added_vocabulary->extract_and_normalize(normalizer.get(), sequence);
+  } else if (normalizer != nullptr) {
+    pre_tokenized =
+        PreTokenizedString(normalizer->normalize(NormalizedString(sequence)));
   }
   if (pre_tokenizer != nullptr) {
     pre_tokenized = pre_tokenizer->pre_tokenize(pre_tokenized);
-- 
2.43.0


From 48dc7f5059c0433c000a609cb563419091f7fceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 40/49] fix: adding tokens to a tokenizer without added tokens

---
 src/tokenizer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index 786c1f8..bc4acc0 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -133,10 +133,18 @@ std::string Tokenizer::decode(const std::vector<int>& ids,
 }
 
 int Tokenizer::add_tokens(const std::vector<AddedToken>& tokens) {
+  if (added_vocabulary == nullptr) {
+    added_vocabulary =
+        std::make_unique<AddedVocabulary>(std::vector<AddedToken>());
+  }
   return added_vocabulary->add_tokens(tokens, model.get(), normalizer.get());
 }
 
 int Tokenizer::add_special_tokens(const std::vector<AddedToken>& tokens) {
+  if (added_vocabulary == nullptr) {
+    added_vocabulary =
+        std::make_unique<AddedVocabulary>(std::vector<AddedToken>());
+  }
   return added_vocabulary->add_special_tokens(tokens, model.get(),
                                               normalizer.get());
 }
-- 
2.43.0


From c3b200b87eb996d95f53aeab65f9998b50c249e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 41/49] fix: inverted splitting

---
 src/pre_tokenizer.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 9ddca40..ec7ccb0 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -233,7 +233,13 @@ PreTokenizedString SplitPreTokenizer::pre_tokenize(
     PreTokenizedString pre_tokenized) const {
   auto matches_regex = [this](icu::UnicodeString input)
       -> std::vector<std::pair<std::pair<int, int>, bool>> {
-    return find_matches(pattern, input);
+    auto matches = find_matches(pattern, input);
+    if (invert) {
+      for (auto& match : matches) {
+        match.second = !match.second;
+      }
+    }
+    return matches;
   };
 
   pre_tokenized.split(matches_regex, behavior);
-- 
2.43.0


From bf0bcb64690a8181a32353d312c18521048e2b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 42/49] fix: WordPiece counts characters above U+FFFF once

---
 src/model.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/model.cpp b/src/model.cpp
index 039ce8a..afe10c4 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -147,8 +147,7 @@ PreTokenizedString WordPiece::tokenize(PreTokenizedString pre_tokenized) const {
     if (!split.tokens.empty()) {
       continue;
     }
-    icu::UnicodeString unicode_sequence =
-        icu::UnicodeString::fromUTF8(split.normalized);
+    std::wstring unicode_sequence = convert_from_string(split.normalized);
     int char_len = unicode_sequence.length();
     if (char_len > max_input_chars_per_word) {
       auto it = vocab.find(unk_token);
@@ -166,10 +165,8 @@ PreTokenizedString WordPiece::tokenize(PreTokenizedString pre_tokenized) const {
       int end = unicode_sequence.length();
       std::optional<Token> cur_sequence_token = std::nullopt;
       while (start < end) {
-        std::string sub_sequence;
-        icu::UnicodeString unicode_sub_sequence =
-            unicode_sequence.tempSubString(start, end - start);
-        unicode_sub_sequence.toUTF8String(sub_sequence);
+        std::string sub_sequence =
+            convert_to_string(unicode_sequence.substr(start, end - start));
         if (start > 0) {
           sub_sequence = continuing_subword_prefix + sub_sequence;
         }
-- 
2.43.0


From e414d056fe36768afe31787e91aac213e5190aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 43/49] fix: token offsets follow the alignment of the
 normalized text

---
 src/tokenizer.cpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index bc4acc0..a1da898 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -4,6 +4,7 @@
 #include <unicode/uchar.h>
 #include <unicode/unistr.h>
 
+#include <algorithm>
 #include <memory>
 #include <numeric>
 #include <optional>
@@ -149,6 +150,14 @@ int Tokenizer::add_special_tokens(const std::vector<AddedToken>& tokens) {
                                               normalizer.get());
 }
 
+// The part of the original text that the i-th character is aligned with.
+std::pair<int, int> original_offsets(const NormalizedString& normalized,
+                                     int i) {
+  std::pair<int, int> range = normalized.offset_ranges[i];
+  return {normalized.offsets[range.first].first,
+          normalized.offsets[range.first + range.second - 1].second};
+}
+
 Encoding into_encoding(PreTokenizedString pre_tokenized,
                        std::optional<int> word_idx, int type_id) {
   Encoding encoding;
@@ -157,21 +166,20 @@ Encoding into_encoding(PreTokenizedString pre_tokenized,
     if (split.tokens.empty()) {
       continue;
     }
-    std::pair<int, int> transformed_split_offset = {
-        pre_tokenized.normalized
-            .offsets[pre_tokenized.normalized.offset_ranges[split.offsets.first]
-                         .first]
-            .first,
-        pre_tokenized.normalized
-            .offsets[pre_tokenized.normalized.offset_ranges[split.offsets.first]
-                         .first]
-            .second};
+    int length = split.offsets.second - split.offsets.first;
     for (Token token : split.tokens) {
       encoding.ids.push_back(token.id);
       encoding.tokens.push_back(token.value);
+      // the characters of the split that the token covers
+      int first = std::min(token.offsets.first, length - 1);
+      int last = std::max(std::min(token.offsets.second, length) - 1, first);
       encoding.offsets.push_back(
-          {transformed_split_offset.first + token.offsets.first,
-           transformed_split_offset.first + token.offsets.second});
+          {original_offsets(pre_tokenized.normalized,
+                            split.offsets.first + first)
+               .first,
+           original_offsets(pre_tokenized.normalized,
+                            split.offsets.first + last)
+               .second});
       encoding.words.push_back(word_idx.has_value() ? word_idx.value() : idx);
       encoding.type_ids.push_back(type_id);
       encoding.special_tokens_mask.push_back(0);
-- 
2.43.0


From 3e51b1aae10bfb07d6a035f78fcbea704bca0ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 44/49] fix: truncation leaves room for the special tokens

---
 include/tokenizers/post_processor.h |  4 ++++
 include/tokenizers/utils.h          |  2 +-
 src/post_processor.cpp              | 23 +++++++++++++++++++++++
 src/tokenizer.cpp                   |  5 ++++-
 src/utils.cpp                       |  3 ++-
 5 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/include/tokenizers/post_processor.h b/include/tokenizers/post_processor.h
index 445c05f..4be4f04 100644
--- a/include/tokenizers/post_processor.h
+++ b/include/tokenizers/post_processor.h
@@ -43,6 +43,8 @@ class PostProcessor {
   virtual ~PostProcessor() = default;
   virtual Encoding process(Encoding encoding,
                            bool add_special_tokens) const = 0;
+  // The number of special tokens that process adds.
+  virtual int added_tokens() const { return 0; }
 };
 
 std::unique_ptr<PostProcessor> with_post_processor(
@@ -54,6 +56,7 @@ class TemplateProcessing : public PostProcessor {
                      const std::vector<std::pair<std::string, Piece>> &pair,
                      const std::vector<SpecialToken> &special_tokens);
   Encoding process(Encoding encoding, bool add_special_tokens) const override;
+  int added_tokens() const override;
 
  private:
   std::vector<std::pair<std::string, Piece>> single;
@@ -79,6 +82,7 @@ class SequenceProcessing : public PostProcessor {
   explicit SequenceProcessing(
       std::vector<std::unique_ptr<PostProcessor>> processors);
   Encoding process(Encoding encoding, bool add_special_tokens) const override;
+  int added_tokens() const override;
 
  private:
   std::vector<std::unique_ptr<PostProcessor>> processors;
diff --git a/include/tokenizers/utils.h b/include/tokenizers/utils.h
index c4dfab9..5977ce7 100644
--- a/include/tokenizers/utils.h
+++ b/include/tokenizers/utils.h
@@ -32,7 +32,7 @@ class Truncation {
  public:
   Truncation(const std::string &direction, const std::string &strategy,
              int max_length, int stride);
-  Encoding truncate_encoding(Encoding encoding) const;
+  Encoding truncate_encoding(Encoding encoding, int reserved = 0) const;
 
  private:
   TRUNCATION_DIRECTION direction;
diff --git a/src/post_processor.cpp b/src/post_processor.cpp
index 749e3be..ef0d069 100644
--- a/src/post_processor.cpp
+++ b/src/post_processor.cpp
@@ -255,6 +255,21 @@ Encoding ByteLevelProcessing::process_offsets(const Encoding& encoding,
   return new_encoding;
 }
 
+int TemplateProcessing::added_tokens() const {
+  int result = 0;
+  for (const auto& piece : single) {
+    if (piece.first == "SpecialToken") {
+      for (const SpecialToken& special_token : special_tokens) {
+        if (special_token.id == piece.second.id) {
+          result += special_token.ids.size();
+          break;
+        }
+      }
+    }
+  }
+  return result;
+}
+
 ByteLevelProcessing::ByteLevelProcessing(bool add_prefix_space,
                                          bool trim_offsets)
     : add_prefix_space(add_prefix_space),
@@ -287,3 +302,11 @@ Encoding SequenceProcessing::process(Encoding encoding,
       });
   return encoding;
 }
+
+int SequenceProcessing::added_tokens() const {
+  int result = 0;
+  for (const std::unique_ptr<PostProcessor>& processor : processors) {
+    result += processor->added_tokens();
+  }
+  return result;
+}
diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index a1da898..5456da6 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -201,7 +201,10 @@ Encoding Tokenizer::do_tokenize(PreTokenizedString pre_tokenized,
 Encoding Tokenizer::do_post_process(Encoding encoding,
                                     bool add_special_tokens) const {
   if (truncation != nullptr) {
-    encoding = truncation->truncate_encoding(encoding);
+    int reserved = add_special_tokens && post_processor != nullptr
+                       ? post_processor->added_tokens()
+                       : 0;
+    encoding = truncation->truncate_encoding(encoding, reserved);
   }
   if (post_processor != nullptr) {
     encoding = post_processor->process(encoding, add_special_tokens);
diff --git a/src/utils.cpp b/src/utils.cpp
index 7c1960c..2a830db 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -119,7 +119,8 @@ Encoding truncate(Encoding encoding, int max_length, int stride,
   return new_encoding;
 }
 
-Encoding Truncation::truncate_encoding(Encoding encoding) const {
+Encoding Truncation::truncate_encoding(Encoding encoding, int reserved) const {
+  int max_length = std::max(this->max_length - reserved, 0);
   if (max_length == 0) {
     return truncate(encoding, 0, stride, direction);
   }
-- 
2.43.0


From 415a7215da6301a4499cda269043b38fa9eb96c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:17 +0000
Subject: [PATCH 45/49] fix: the byte-level pattern is not cut to its first
 characters

---
 src/pre_tokenizer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index ec7ccb0..459ab57 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -251,8 +251,7 @@ ByteLevelPreTokenizer::ByteLevelPreTokenizer(bool add_prefix_space,
     : add_prefix_space(add_prefix_space),
       use_regex(use_regex),
       regex(
-          R"('s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+)",
-          std::regex_constants::optimize),
+          R"('s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+)"),
       BYTES_CHAR(bytes_char()) {}
 
 PreTokenizedString ByteLevelPreTokenizer::pre_tokenize(
-- 
2.43.0


From 61e2338c0c76e4fb76c14e1032231e4b90be3c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:36 +0000
Subject: [PATCH 46/49] fix: pieces of a byte-level text stay inside its part
 of the sentence

---
 src/pre_tokenizer.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 459ab57..fd41c54 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -5,6 +5,7 @@
 #include <unicode/uchar.h>
 #include <unicode/unistr.h>
 
+#include <algorithm>
 #include <functional>
 #include <iostream>
 #include <memory>
@@ -169,11 +170,17 @@ std::vector<Split> split_normalized(
       unicode_normalized
           .tempSubStringBetween(match.first.first, match.first.second)
           .toUTF8String(split_unicode_normalized);
-      int start = unicode_normalized.countChar32(0, match.first.first);
-      int stop = unicode_normalized.countChar32(0, match.first.second);
-      new_splits.push_back(Split(split_unicode_normalized,
-                                 {start + original_split.offsets.first,
-                                  stop + original_split.offsets.first}));
+      int start = unicode_normalized.countChar32(0, match.first.first) +
+                  original_split.offsets.first;
+      int stop = unicode_normalized.countChar32(0, match.first.second) +
+                 original_split.offsets.first;
+      // a byte-level text can have more characters than its part of the
+      // sentence has: its pieces must not leave that part
+      if (stop > original_split.offsets.second) {
+        stop = original_split.offsets.second;
+        start = std::min(start, stop - 1);
+      }
+      new_splits.push_back(Split(split_unicode_normalized, {start, stop}));
     }
   }
   return new_splits;
-- 
2.43.0


From 474e2dd0a975149d1f969433518b45e974a2ce56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:00 +0000
Subject: [PATCH 47/49] fix: byte-level characters are aligned with the
 characters they encode

---
 src/pre_tokenizer.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index fd41c54..612ed01 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -284,15 +284,28 @@ PreTokenizedString ByteLevelPreTokenizer::pre_tokenize(
     return {{{0, input.length()}, false}};
   };
   pre_tokenized.split(matches_regex, SPLIT_DELIMITER_BEHAVIOR::ISOLATED);
+  shift = 0;
   for (Split& split : pre_tokenized.splits) {
-    if (!split.tokens.empty()) {
-      continue;
-    }
-    std::string new_split_normalized;
-    for (const char c : split.normalized) {
-      new_split_normalized += BYTES_CHAR.at(static_cast<unsigned char>(c));
+    split.offsets.first += shift;
+    if (split.tokens.empty()) {
+      std::wstring characters = convert_from_string(split.normalized);
+      int position = split.offsets.first;
+      for (const wchar_t c : characters) {
+        int bytes = convert_to_string(std::wstring(1, c)).length();
+        pre_tokenized.normalized.replace_range(position, 1, bytes);
+        position += bytes;
+        shift += bytes - 1;
+      }
+      std::string new_split_normalized;
+      for (const char c : split.normalized) {
+        new_split_normalized += BYTES_CHAR.at(static_cast<unsigned char>(c));
+      }
+      pre_tokenized.normalized.normalized.replace(
+          split.offsets.first, characters.length(),
+          convert_from_string(new_split_normalized));
+      split.normalized = new_split_normalized;
     }
-    split.normalized = new_split_normalized;
+    split.offsets.second += shift;
   }
   return pre_tokenized;
 }
-- 
2.43.0


From bb3bd8baf99f219fe8f4b27db0ffa6168d5cbd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:31 +0000
Subject: [PATCH 48/49] fix: BPE with ignore_merges gives no token for an empty
 text

---
 src/model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.cpp b/src/model.cpp
index afe10c4..0d8c8fd 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -433,7 +433,7 @@ std::vector<Token> BPE::word_to_tokens(const Word& word) const {
 }
 
 std::vector<Token> BPE::tokenize_with_cache(const std::string& sequence) const {
-  if (ignore_merges) {
+  if (ignore_merges && !sequence.empty()) {
     auto it = vocab.find(sequence);
     if (it != vocab.end()) {
       return {Token(it->second, sequence, {0, sequence.length()})};
-- 
2.43.0


From 2079f1488ee09a8cb91c6af345e27171fbda4d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:09 +0000
Subject: [PATCH 49/49] fix: adding tokens to a tokenizer without a supported
 model does not crash

---
 src/added_vocabulary.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index 0e05da0..117e02d 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -74,7 +74,8 @@ int AddedVocabulary::add_tokens(const std::vector<AddedToken>& tokens,
     auto it = added_tokens_map.find(token.content);
     if (it != added_tokens_map.end()) {
       new_id = it->second;
-    } else if (model->token_to_id(token.content).has_value()) {
+    } else if (model != nullptr &&
+               model->token_to_id(token.content).has_value()) {
       new_id = model->token_to_id(token.content).value();
     } else {
       auto max_val_token =
@@ -83,11 +84,13 @@ int AddedVocabulary::add_tokens(const std::vector<AddedToken>& tokens,
                               const std::pair<std::string, int>& b) {
                              return a.second < b.second;
                            });
+      // without a model, no id is taken
+      const int vocab_size = model != nullptr ? model->get_vocab_size() : 0;
       if (max_val_token != added_tokens_map.end() &&
-          max_val_token->second >= model->get_vocab_size()) {
+          max_val_token->second >= vocab_size) {
         new_id = max_val_token->second + 1;
       } else {
-        new_id = model->get_vocab_size();
+        new_id = vocab_size;
       }
     }
     added_tokens_map[token.content] = new_id;
-- 
2.43.0

