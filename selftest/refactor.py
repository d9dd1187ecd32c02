#!/usr/bin/env python3
"""Applies behaviour-preserving refactorings to a scratch copy of /repo, one at a time, and runs the proofs (and, with
--harness, the whole checks) of the properties around them: none may report a violation.

  refactor.py [--harness] [NAME ...]
"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = []


def r(name, props, file, *pairs):
    R.append((name, props.split(","), file, pairs))


r("truncate-slice-helper", "C01,C02,C04", "src/utils.cpp",
  ("Encoding truncate(Encoding encoding, int max_length, int stride,",
   """static Encoding slice(const Encoding& e, std::pair<int, int> r) {
  return Encoding(
      std::vector<int>(e.ids.begin() + r.first, e.ids.begin() + r.second),
      std::vector<int>(e.type_ids.begin() + r.first, e.type_ids.begin() + r.second),
      std::vector<std::string>(e.tokens.begin() + r.first, e.tokens.begin() + r.second),
      std::vector<std::optional<int>>(e.words.begin() + r.first, e.words.begin() + r.second),
      std::vector<std::pair<int, int>>(e.offsets.begin() + r.first, e.offsets.begin() + r.second),
      std::vector<int>(e.special_tokens_mask.begin() + r.first, e.special_tokens_mask.begin() + r.second),
      std::vector<int>(e.attention_mask.begin() + r.first, e.attention_mask.begin() + r.second));
}

Encoding truncate(Encoding encoding, int max_length, int stride,"""),
  ("""  Encoding new_encoding(
      std::vector<int>(encoding.ids.begin() + elem.first,
                       encoding.ids.begin() + elem.second),
      std::vector<int>(encoding.type_ids.begin() + elem.first,
                       encoding.type_ids.begin() + elem.second),
      std::vector<std::string>(encoding.tokens.begin() + elem.first,
                               encoding.tokens.begin() + elem.second),
      std::vector<std::optional<int>>(encoding.words.begin() + elem.first,
                                      encoding.words.begin() + elem.second),
      std::vector<std::pair<int, int>>(encoding.offsets.begin() + elem.first,
                                       encoding.offsets.begin() + elem.second),
      std::vector<int>(encoding.special_tokens_mask.begin() + elem.first,
                       encoding.special_tokens_mask.begin() + elem.second),
      std::vector<int>(encoding.attention_mask.begin() + elem.first,
                       encoding.attention_mask.begin() + elem.second));
""", "  Encoding new_encoding = slice(encoding, elem);\n"),
  ("""    new_encoding.overflowing.push_back(Encoding(
        std::vector<int>(encoding.ids.begin() + elem.first,
                         encoding.ids.begin() + elem.second),
        std::vector<int>(encoding.type_ids.begin() + elem.first,
                         encoding.type_ids.begin() + elem.second),
        std::vector<std::string>(encoding.tokens.begin() + elem.first,
                                 encoding.tokens.begin() + elem.second),
        std::vector<std::optional<int>>(encoding.words.begin() + elem.first,
                                        encoding.words.begin() + elem.second),
        std::vector<std::pair<int, int>>(
            encoding.offsets.begin() + elem.first,
            encoding.offsets.begin() + elem.second),
        std::vector<int>(encoding.special_tokens_mask.begin() + elem.first,
                         encoding.special_tokens_mask.begin() + elem.second),
        std::vector<int>(encoding.attention_mask.begin() + elem.first,
                         encoding.attention_mask.begin() + elem.second)));
""", "    new_encoding.overflowing.push_back(slice(encoding, elem));\n"))
r("truncate-early-break", "C01,C02,C04", "src/utils.cpp",
  ("""      if (!end) {
        int stop = std::min(start + max_length, encoding_length);
        end = stop == encoding_length;
        parts_ranges.push_back({start, stop});
      }
""", """      int stop = std::min(start + max_length, encoding_length);
      parts_ranges.push_back({start, stop});
      if (stop == encoding_length) {
        break;
      }
"""))
r("truncate-rename", "C01,C02", "src/utils.cpp", ("int offset = max_length - stride;", "int step = max_length - stride;"),
  ("start += offset", "start += step"), ("stop -= offset", "stop -= step"), ("parts_ranges", "windows"))
r("pad-loop", "C03,C04", "src/utils.cpp",
  ("""  std::transform(encoding.overflowing.begin(), encoding.overflowing.end(),
                 encoding.overflowing.begin(),
                 [&](const Encoding& overflow_encoding) {
                   return pad(overflow_encoding, target_length, pad_id,
                              pad_type_id, pad_token, direction);
                 });
""", """  for (Encoding& overflow_encoding : encoding.overflowing) {
    overflow_encoding = pad(overflow_encoding, target_length, pad_id,
                            pad_type_id, pad_token, direction);
  }
"""))
r("pad-reorder", "C03,C04", "src/utils.cpp",
  ("""    encoding.ids.insert(encoding.ids.begin(), pad_length, pad_id);
    encoding.type_ids.insert(encoding.type_ids.begin(), pad_length,
                             pad_type_id);
""", """    encoding.type_ids.insert(encoding.type_ids.begin(), pad_length,
                             pad_type_id);
    encoding.ids.insert(encoding.ids.begin(), pad_length, pad_id);
"""),
  ("  int pad_length = target_length - encoding.ids.size();", "  const int current = encoding.ids.size();\n  int pad_length = target_length - current;"))
r("pad-multiple", "C03", "src/utils.cpp",
  ("""  if (pad_to_multiple_of > 0 && pad_length % pad_to_multiple_of > 0) {
    pad_length += pad_to_multiple_of - pad_length % pad_to_multiple_of;
  }
""", """  if (pad_to_multiple_of > 0) {
    int rest = pad_length % pad_to_multiple_of;
    if (rest > 0) {
      pad_length += pad_to_multiple_of - rest;
    }
  }
"""))
r("wordpiece-unk-helper", "C10", "src/model.cpp",
  ("PreTokenizedString WordPiece::tokenize(PreTokenizedString pre_tokenized) const {",
   """static Token unknown_token(const std::unordered_map<std::string, int>& vocab,
                           const std::string& unk_token, int char_len) {
  auto it = vocab.find(unk_token);
  int id = it == vocab.end() ? 0 : it->second;
  return Token(id, unk_token, {0, char_len});
}

PreTokenizedString WordPiece::tokenize(PreTokenizedString pre_tokenized) const {"""),
  ("""      auto it = vocab.find(unk_token);
      if (it == vocab.end()) {
        split.tokens = {Token(0, unk_token, {0, char_len})};
        continue;
      }
      split.tokens = {Token(it->second, unk_token, {0, char_len})};
""", "      split.tokens = {unknown_token(vocab, unk_token, char_len)};\n"))
r("wordpiece-for", "C10", "src/model.cpp",
  ("""      int end = unicode_sequence.length();
      std::optional<Token> cur_sequence_token = std::nullopt;
      while (start < end) {
""", """      std::optional<Token> cur_sequence_token = std::nullopt;
      int end = unicode_sequence.length();
      for (; end > start; end--) {
"""),
  ("""        if (vocab.count(sub_sequence) != 0) {
          auto it = vocab.find(sub_sequence);
          if (it != vocab.end()) {
            cur_sequence_token = Token(it->second, sub_sequence, {start, end});
          }
          break;
        }
        end -= 1;
""", """        auto it = vocab.find(sub_sequence);
        if (it != vocab.end()) {
          cur_sequence_token = Token(it->second, sub_sequence, {start, end});
          break;
        }
"""))
r("bpe-offsets-index-loop", "C11", "src/model.cpp",
  ("""  for (Token& token : tokens) {
    int first = std::min(token.offsets.first, length);
    int second = std::min(token.offsets.second, length);
    token.offsets = {chars_before[first] - (inside_char[first] ? 1 : 0),
                     chars_before[second]};
  }
""", """  for (size_t k = 0; k < tokens.size(); k++) {
    int second = std::min(tokens[k].offsets.second, length);
    int first = std::min(tokens[k].offsets.first, length);
    tokens[k].offsets = {chars_before[first] - (inside_char[first] ? 1 : 0),
                         chars_before[second]};
  }
"""))
r("bpe-first-queue", "C12", "src/model.cpp",
  ("""  for (int i = 0; i + 1 < symbols.size(); i++) {
    std::pair<int, int> pair = {symbols[i].c, symbols[i + 1].c};
    auto it = merges.find(pair);
    if (it != merges.end()) {
      queue.emplace(i, it->second.first, it->second.second);
    }
  }
""", """  for (int i = 1; i < symbols.size(); i++) {
    auto it = merges.find({symbols[i - 1].c, symbols[i].c});
    if (it != merges.end()) {
      queue.push(Merge(i - 1, it->second.first, it->second.second));
    }
  }
"""))
r("bpe-merge-conditions", "C12", "src/model.cpp",
  ("""    if (symbols[top.pos].len == 0) {
      continue;
    }
    if (symbols[top.pos].next == -1) {
      continue;
    }
""", """    if (symbols[top.pos].len == 0 || symbols[top.pos].next == -1) {
      continue;
    }
"""))
r("bpe-byte-helper", "C11,C12", "src/model.cpp",
  ("Word BPE::merge_word(std::string sequence) const {",
   """static std::string byte_code(char b) {
  std::ostringstream oss;
  oss << "<0x" << std::hex << std::uppercase << std::setw(2)
      << std::setfill('0') << static_cast<int>(static_cast<unsigned char>(b))
      << ">";
  return oss.str();
}

Word BPE::merge_word(std::string sequence) const {"""),
  ("""          std::ostringstream oss;
          oss << "<0x" << std::hex << std::uppercase << std::setw(2)
              << std::setfill('0')
              << static_cast<int>(static_cast<unsigned char>(b)) << ">";
          auto code = oss.str();
          auto token_it = vocab.find(code);
""", """          auto token_it = vocab.find(byte_code(b));
"""))
r("bpe-all-found", "C11,C12", "src/model.cpp",
  ("""        bool all_found = true;
        for (auto& token : tokens) {
          if (!token.has_value()) {
            all_found = false;
          }
        }
""", """        bool all_found = std::all_of(
            tokens.begin(), tokens.end(),
            [](const std::optional<int>& token) { return token.has_value(); });
"""))
r("into-encoding-if", "C23,C04", "src/tokenizer.cpp",
  ("""    if (split.tokens.empty()) {
      continue;
    }
    int length = split.offsets.second - split.offsets.first;
    for (Token token : split.tokens) {
""", """    int length = split.offsets.second - split.offsets.first;
    for (const Token& token : split.tokens) {
"""),
  ("""      encoding.ids.push_back(token.id);
      encoding.tokens.push_back(token.value);
""", """      encoding.tokens.push_back(token.value);
      encoding.ids.push_back(token.id);
"""))
r("into-encoding-word", "C23,C04", "src/tokenizer.cpp",
  ("""      encoding.words.push_back(word_idx.has_value() ? word_idx.value() : idx);
""", """      encoding.words.push_back(word_idx.value_or(idx));
"""))
r("encode-branches", "C23,C13", "src/tokenizer.cpp",
  ("""  PreTokenizedString pre_tokenized =
      PreTokenizedString(NormalizedString(sequence));
  if (added_vocabulary != nullptr) {
    pre_tokenized =
        added_vocabulary->extract_and_normalize(normalizer.get(), sequence);
  } else if (normalizer != nullptr) {
    pre_tokenized =
        PreTokenizedString(normalizer->normalize(NormalizedString(sequence)));
  }
""", """  NormalizedString text(sequence);
  if (added_vocabulary == nullptr && normalizer != nullptr) {
    text = normalizer->normalize(text);
  }
  PreTokenizedString pre_tokenized(text);
  if (added_vocabulary != nullptr) {
    pre_tokenized =
        added_vocabulary->extract_and_normalize(normalizer.get(), sequence);
  }
"""))
r("decode-flatten", "C17,C13", "src/tokenizer.cpp",
  ("""    if (!token.has_value()) {
      continue;
    }
    if (!skip_special_tokens || added_vocabulary == nullptr ||
        !added_vocabulary->is_special_token(token.value())) {
      tokens.push_back(token.value());
    }
""", """    if (token.has_value()) {
      bool special = added_vocabulary != nullptr &&
                     added_vocabulary->is_special_token(*token);
      if (!(skip_special_tokens && special)) {
        tokens.push_back(*token);
      }
    }
"""))
r("decode-concat", "C17", "src/tokenizer.cpp",
  ("  return std::accumulate(tokens.begin(), tokens.end(), std::string{});",
   "  std::string text;\n  for (const std::string& token : tokens) {\n    text += token;\n  }\n  return text;"))
r("template-else-if", "C05,C04", "src/post_processor.cpp",
  ("""      final_encodings.push_back(encoding);
    }
    if (piece.first == "SpecialToken") {
      if (add_special_tokens) {
""", """      final_encodings.push_back(encoding);
    } else if (piece.first == "SpecialToken") {
      if (add_special_tokens) {
"""))
r("template-vectors", "C05,C04", "src/post_processor.cpp",
  ("""        new_encoding.special_tokens_mask =
            std::vector<int>(special_token.ids.size(), 1);
        new_encoding.attention_mask =
            std::vector<int>(special_token.ids.size(), 1);
""", """        const std::vector<int> ones(special_token.ids.size(), 1);
        new_encoding.attention_mask = ones;
        new_encoding.special_tokens_mask = ones;
"""))
r("bytelevel-trim-helper", "C07,C04", "src/post_processor.cpp",
  ("Encoding ByteLevelProcessing::process_offsets(const Encoding& encoding,",
   """static std::string unit_at(const icu::UnicodeString& text, int i) {
  std::string unit;
  text.tempSubString(i, 1).toUTF8String(unit);
  return unit;
}

Encoding ByteLevelProcessing::process_offsets(const Encoding& encoding,"""),
  ("""      std::string token_char;
      unicode_token.tempSubString(j, 1).toUTF8String(token_char);
      if (BYTES_CHAR.at(static_cast<uint16_t>(' ')) == token_char) {
""", """      if (BYTES_CHAR.at(static_cast<uint16_t>(' ')) == unit_at(unicode_token, j)) {
"""))
r("bytelevel-while", "C07", "src/post_processor.cpp",
  ("""    for (int j = 0; j < unicode_token.length(); j++) {
      std::string token_char;
      unicode_token.tempSubString(j, 1).toUTF8String(token_char);
      if (BYTES_CHAR.at(static_cast<uint16_t>(' ')) == token_char) {
        leading_spaces++;
      } else {
        break;
      }
    }
""", """    while (leading_spaces < unicode_token.length()) {
      std::string token_char;
      unicode_token.tempSubString(leading_spaces, 1).toUTF8String(token_char);
      if (BYTES_CHAR.at(static_cast<uint16_t>(' ')) != token_char) {
        break;
      }
      leading_spaces++;
    }
"""))
r("strip-for", "C20,C21", "src/normalizer.cpp",
  ("""    while (start < normalized.normalized.size() &&
           u_isUWhiteSpace(
               static_cast<UChar32>(normalized.normalized[start]))) {
      ++start;
    }
""", """    for (; start < normalized.normalized.size(); start++) {
      if (!u_isUWhiteSpace(
              static_cast<UChar32>(normalized.normalized[start]))) {
        break;
      }
    }
"""))
r("strip-order", "C20,C21", "src/normalizer.cpp",
  ("""  normalized.replace_range(end, normalized.normalized.size() - end, 0);
  normalized.replace_range(0, start, 0);
  normalized.normalized = normalized.normalized.substr(start, end - start);
""", """  const int length = normalized.normalized.size();
  normalized.replace_range(end, length - end, 0);
  normalized.replace_range(0, start, 0);
  std::wstring kept = normalized.normalized.substr(start, end - start);
  normalized.normalized = kept;
"""))
r("clean-flip", "C19,C21", "src/normalizer.cpp",
  ("""    if (c != 0 && c != 0xFFFD && !is_control(c)) {
      if (is_whitespace(c)) {
        result.push_back(L' ');
      } else {
        result.push_back(c);
      }
    } else {
      normalized.transform(i, "erase", 0);
      continue;
    }
    i++;
""", """    if (c == 0 || c == 0xFFFD || is_control(c)) {
      normalized.transform(i, "erase", 0);
      continue;
    }
    result.push_back(is_whitespace(c) ? L' ' : c);
    i++;
"""))
r("normalized-ctor", "C21", "src/normalizer.cpp",
  ("""    for (int j = 0; j < normalized_str.length(); j++) {
      offsets.push_back({i, i + 1});
    }
""", """    offsets.insert(offsets.end(), normalized_str.length(), {i, i + 1});
"""))
r("replace-scan", "C20,C21", "src/normalizer.cpp",
  ("""    if (!from.empty() &&
        normalized.normalized.compare(i, from.length(), from) == 0) {
""", """    bool found = !from.empty() &&
                 normalized.normalized.substr(i, from.length()) == from;
    if (found) {
"""))
r("lower-loop", "C19,C21", "src/normalizer.cpp",
  ("""  std::wstring result = normalized.normalized;
  std::transform(result.begin(), result.end(), result.begin(), [](wchar_t c) {
    return static_cast<wchar_t>(u_tolower(static_cast<UChar32>(c)));
  });
  normalized.normalized = result;
""", """  for (wchar_t& c : normalized.normalized) {
    c = static_cast<wchar_t>(u_tolower(static_cast<UChar32>(c)));
  }
"""))
r("sequence-loop", "C24,C21", "src/normalizer.cpp",
  ("""  normalized =
      std::accumulate(normalizers.begin(), normalizers.end(), normalized,
                      [](const NormalizedString& normalized,
                         const std::unique_ptr<Normalizer>& normalizer) {
                        return normalizer->normalize(normalized);
                      });
""", """  for (const std::unique_ptr<Normalizer>& normalizer : normalizers) {
    normalized = normalizer->normalize(normalized);
  }
"""))
r("find-matches-one-loop", "C08,C06,C09", "src/pre_tokenizer.cpp",
  ("""  while (matcher->find(status)) {
    matches.push_back({matcher->start(status), matcher->end(status)});
  }
  delete matcher;
  delete unicode_pattern;

  std::vector<std::pair<std::pair<int, int>, bool>> result;
  int cur = 0;
  for (auto match : matches) {
""", """  std::vector<std::pair<std::pair<int, int>, bool>> result;
  int cur = 0;
  while (matcher->find(status)) {
    std::pair<int, int> match = {matcher->start(status), matcher->end(status)};
"""),
  ("  if (cur < input.length()) {\n    result.push_back({{cur, input.length()}, false});",
   "  delete matcher;\n  delete unicode_pattern;\n  if (cur < input.length()) {\n    result.push_back({{cur, input.length()}, false});"))
r("split-if", "C08,C09", "src/pre_tokenizer.cpp",
  ("""  switch (pattern) {
    case REMOVED:
      break;
    case ISOLATED:
      for (auto& match : matches) {
        match.second = false;
      }
      break;
  }
  for (auto match : matches) {
    if (!match.second) {
""", """  for (const auto& match : matches) {
    if (pattern == ISOLATED || !match.second) {
"""))
r("split-if-else", "C08,C09", "src/pre_tokenizer.cpp",
  ("""    if (orig_split.tokens.size() != 0) {
      new_splits.push_back(orig_split);
      continue;
    }

    std::vector<Split> new_normalized_splits =
        split_normalized(orig_split, split_fn, pattern);
    new_splits.insert(new_splits.end(), new_normalized_splits.begin(),
                      new_normalized_splits.end());
""", """    if (orig_split.tokens.empty()) {
      for (const Split& piece : split_normalized(orig_split, split_fn, pattern)) {
        new_splits.push_back(piece);
      }
    } else {
      new_splits.push_back(orig_split);
    }
"""))
r("bytelevel-pre-encode-helper", "C06", "src/pre_tokenizer.cpp",
  ("PreTokenizedString ByteLevelPreTokenizer::pre_tokenize(",
   """static std::string encode_bytes(
    const std::unordered_map<uint16_t, std::string>& table,
    const std::string& text) {
  std::string result;
  for (const char c : text) {
    result += table.at(static_cast<unsigned char>(c));
  }
  return result;
}

PreTokenizedString ByteLevelPreTokenizer::pre_tokenize("""),
  ("""      std::string new_split_normalized;
      for (const char c : split.normalized) {
        new_split_normalized += BYTES_CHAR.at(static_cast<unsigned char>(c));
      }
""", "      std::string new_split_normalized = encode_bytes(BYTES_CHAR, split.normalized);\n"))
r("extract-value", "C16", "src/added_vocabulary.cpp",
  ("""      ending_idx += split_normalized.normalized.length();
""", """      const int normalized_length = split_normalized.normalized.length();
      ending_idx += normalized_length;
"""))
r("find-longest-helper", "C16", "src/added_vocabulary.cpp",
  ("std::vector<std::pair<std::optional<int>, std::pair<int, int>>>\nAddedVocabulary::find_matches(",
   """static int longest_at(const icu::UnicodeString& sentence, int cur,
                      const std::vector<icu::UnicodeString>& words,
                      const std::vector<int>& ids, int* id) {
  int longest = 0;
  for (int i = 0; i < words.size(); ++i) {
    if (words[i].length() > longest &&
        sentence.tempSubString(cur, words[i].length()) == words[i]) {
      longest = words[i].length();
      *id = ids[i];
    }
  }
  return longest;
}

std::vector<std::pair<std::optional<int>, std::pair<int, int>>>
AddedVocabulary::find_matches("""),
  ("""    int longest = 0, longest_id = 0;
    for (int i = 0; i < words.size(); ++i) {
      if (words[i].length() > longest &&
          unicode_sentence.tempSubString(cur, words[i].length()) == words[i]) {
        longest = words[i].length();
        longest_id = split_re.second[i];
      }
    }
""", """    int longest_id = 0;
    int longest = longest_at(unicode_sentence, cur, words, split_re.second,
                             &longest_id);
"""))
r("find-single-word", "C16", "src/added_vocabulary.cpp",
  ("""      if (!stop_space || !start_space) {
        continue;
      }
""", """      if (!(start_space && stop_space)) {
        continue;
      }
"""))
r("add-tokens-id-helper", "C15", "src/added_vocabulary.cpp",
  ("""    } else if (model->token_to_id(token.content).has_value()) {
      new_id = model->token_to_id(token.content).value();
    } else {
""", """    } else if (auto model_id = model->token_to_id(token.content)) {
      new_id = *model_id;
    } else {
"""))
r("add-tokens-max-loop", "C15", "src/added_vocabulary.cpp",
  ("""      auto max_val_token =
          std::max_element(added_tokens_map.begin(), added_tokens_map.end(),
                           [](const std::pair<std::string, int>& a,
                              const std::pair<std::string, int>& b) {
                             return a.second < b.second;
                           });
      if (max_val_token != added_tokens_map.end() &&
          max_val_token->second >= model->get_vocab_size()) {
        new_id = max_val_token->second + 1;
      } else {
        new_id = model->get_vocab_size();
      }
""", """      new_id = model->get_vocab_size();
      for (const auto& element : added_tokens_map) {
        if (element.second >= new_id) {
          new_id = element.second + 1;
        }
      }
"""))
r("cleanup-loop", "C18", "src/decoder.cpp",
  ("""    std::string token = tokens[i];
    if (i != 0) {
      if (token.find(prefix) == 0) {
        token.replace(0, prefix.length(), "");
      } else {
        token = " " + token;
      }
    }
    if (cleanup) {
      token = cleanup_token(token);
    }
    result.push_back(token);
""", """    std::string token = tokens[i];
    if (i > 0) {
      bool continues = token.compare(0, prefix.length(), prefix) == 0;
      token = continues ? token.substr(prefix.length()) : " " + token;
    }
    result.push_back(cleanup ? cleanup_token(token) : token);
"""))
r("decoder-sequence-index", "C24", "src/decoder.cpp",
  ("""  for (const std::unique_ptr<Decoder>& decoder : decoders) {
    tokens = decoder->decode_chain(tokens);
  }
""", """  for (size_t i = 0; i < decoders.size(); i++) {
    tokens = decoders[i]->decode_chain(tokens);
  }
"""))
r("bytes-char-simple", "C06", "src/common.cpp",
  ("""    if (code_point <= 0x10FFFF) {
      std::string str;
      icu::UnicodeString unicode_str;
      if (code_point <= 0xFFFF) {
        unicode_str.append(static_cast<UChar>(code_point));
      } else {
        code_point -= 0x10000;
        unicode_str.append(static_cast<UChar>((code_point >> 10) + 0xD800));
        unicode_str.append(static_cast<UChar>((code_point & 0x3FF) + 0xDC00));
      }
      unicode_str.toUTF8String(str);
      result[byte] = str;
    }
""", """    std::string str;
    icu::UnicodeString(static_cast<UChar>(code_point)).toUTF8String(str);
    result[byte] = str;
"""))
r("vocab-ctor", "C14", "src/model.cpp",
  ("""  for (auto pair : vocab) {
    vocab_r[pair.second] = pair.first;
  }
""", """  for (const auto& [token, id] : vocab) {
    vocab_r[id] = token;
  }
"""),
  ("""  auto it = vocab.find(token);
  if (it != vocab.end()) {
    return it->second;
  }
  return std::nullopt;
""", """  auto it = vocab.find(token);
  return it == vocab.end() ? std::nullopt : std::optional<int>(it->second);
"""))

# ---- second batch ----
READ = """  simdjson::ondemand::value val;
  std::string type = std::string(
      static_cast<std::string_view>(decoder_params["type"].get_string()));
"""
r("decoder-type-once", "C25,C18", "src/decoder.cpp",
  (READ, READ + "  const DECODER decoder_type = get_decoder(type);\n"),
  ("  if (get_decoder(type) == SEQUENCE_DECODER) {", "  if (decoder_type == SEQUENCE_DECODER) {"),
  ("} else if (get_decoder(type) == WORD_PIECE_DECODER) {", "} else if (decoder_type == WORD_PIECE_DECODER) {"),
  ("} else if (get_decoder(type) == BYTE_LEVEL_DECODER) {", "} else if (decoder_type == BYTE_LEVEL_DECODER) {"))
r("decoder-optional-string", "C25,C18", "src/decoder.cpp",
  ("std::unique_ptr<Decoder> with_decoder(\n", """static std::string string_or_empty(simdjson::ondemand::value val) {
  if (val.type() == simdjson::ondemand::json_type::null) {
    return "";
  }
  return std::string(static_cast<std::string_view>(val.get_string()));
}

std::unique_ptr<Decoder> with_decoder(
"""),
  ("""    std::string prefix =
        std::string(val.type() == simdjson::ondemand::json_type::null
                        ? ""
                        : static_cast<std::string_view>(val.get_string()));
""", """    std::string prefix = string_or_empty(val);
"""))
r("decoder-type-switch", "C25", "src/decoder.cpp",
  ("""  auto it = types.find(type);
  if (it != types.end()) {
    return it->second;
  }
  return UNKNOWN_DECODER;
""", """  const auto it = types.find(type);
  return it == types.end() ? UNKNOWN_DECODER : it->second;
"""))
r("decoder-make", "C25", "src/decoder.cpp",
  ("""    return std::make_unique<WordPieceDecoder>(
        WordPieceDecoder(prefix, cleanup));
""", """    return std::make_unique<WordPieceDecoder>(prefix, cleanup);
"""),
  ("""    return std::make_unique<SequenceDecoder>(
        SequenceDecoder(std::move(seq_decoders)));
""", """    return std::make_unique<SequenceDecoder>(std::move(seq_decoders));
"""))
r("wordpiece-decoder-branches", "C18", "src/decoder.cpp",
  ("""  for (int i = 0; i < tokens.size(); i++) {
    std::string token = tokens[i];
    if (i != 0) {
      if (token.find(prefix) == 0) {
        token.replace(0, prefix.length(), "");
      } else {
        token = " " + token;
      }
    }
    if (cleanup) {
      token = cleanup_token(token);
    }
    result.push_back(token);
  }
""", """  bool first = true;
  for (std::string token : tokens) {
    if (!first) {
      bool continues = token.compare(0, prefix.length(), prefix) == 0;
      token = continues ? token.substr(prefix.length()) : " " + token;
    }
    first = false;
    result.push_back(cleanup ? cleanup_token(token) : token);
  }
"""))
r("wordpiece-decoder-reserve", "C18", "src/decoder.cpp",
  ("""  std::vector<std::string> result;
  for (int i = 0; i < tokens.size(); i++) {
    std::string token = tokens[i];
    if (i != 0) {
""", """  std::vector<std::string> result;
  result.reserve(tokens.size());
  for (size_t i = 0; i < tokens.size(); ++i) {
    std::string token = tokens.at(i);
    if (i > 0) {
"""),
  ("    result.push_back(token);\n  }\n  return result;", "    result.emplace_back(std::move(token));\n  }\n  return result;"))
r("bytelevel-decoder-helper", "C06", "src/decoder.cpp",
  ("""    bool is_byte_level = true;
    for (int i = 0; i < unicode_token.length(); i++) {
      std::string token_char;
      unicode_token.tempSubString(i, 1).toUTF8String(token_char);
      auto it = CHAR_BYTES.find(token_char);
      if (it == CHAR_BYTES.end()) {
        is_byte_level = false;
        break;
      }
      bytes.push_back(static_cast<char>(it->second));
    }
    result += is_byte_level ? bytes : token;
""", """    bool is_byte_level = true;
    for (int i = 0; is_byte_level && i < unicode_token.length(); i++) {
      std::string token_char;
      unicode_token.tempSubString(i, 1).toUTF8String(token_char);
      auto it = CHAR_BYTES.find(token_char);
      if (it != CHAR_BYTES.end()) {
        bytes += static_cast<char>(it->second);
      } else {
        is_byte_level = false;
      }
    }
    if (is_byte_level) {
      result.append(bytes);
    } else {
      result.append(token);
    }
"""))
r("bytelevel-decoder-ctor", "C06", "src/decoder.cpp",
  ("""  auto BYTES_CHAR = bytes_char();
  for (auto elem : BYTES_CHAR) {
    CHAR_BYTES[elem.second] = elem.first;
  }
""", """  for (const auto& [byte, character] : bytes_char()) {
    CHAR_BYTES.insert({character, byte});
  }
"""))
r("decode-lookup-helper", "C17,C13,C27", "src/tokenizer.cpp",
  ("""    std::optional<std::string> token;
    if (added_vocabulary != nullptr) {
      token = added_vocabulary->id_to_token(id);
    }
    if (!token.has_value() && model != nullptr) {
      token = model->id_to_token(id);
    }
    if (!token.has_value()) {
      continue;
    }
    if (!skip_special_tokens || added_vocabulary == nullptr ||
        !added_vocabulary->is_special_token(token.value())) {
      tokens.push_back(token.value());
    }
""", """    std::optional<std::string> token =
        added_vocabulary != nullptr ? added_vocabulary->id_to_token(id)
                                    : std::nullopt;
    if (!token && model != nullptr) {
      token = model->id_to_token(id);
    }
    if (token) {
      bool is_special = added_vocabulary != nullptr &&
                        added_vocabulary->is_special_token(*token);
      if (!(skip_special_tokens && is_special)) {
        tokens.push_back(*token);
      }
    }
"""))
r("decode-loop-sum", "C17", "src/tokenizer.cpp",
  ("""  return std::accumulate(tokens.begin(), tokens.end(), std::string{});
""", """  std::string text;
  for (const std::string& token : tokens) {
    text += token;
  }
  return text;
"""))
r("add-tokens-ensure", "C15", "src/tokenizer.cpp",
  ("""int Tokenizer::add_tokens(const std::vector<AddedToken>& tokens) {
  if (added_vocabulary == nullptr) {
    added_vocabulary =
        std::make_unique<AddedVocabulary>(std::vector<AddedToken>());
  }
""", """int Tokenizer::add_tokens(const std::vector<AddedToken>& tokens) {
  if (!added_vocabulary) {
    added_vocabulary.reset(new AddedVocabulary(std::vector<AddedToken>()));
  }
"""))
r("original-offsets-names", "C22,C23", "src/tokenizer.cpp",
  ("""  std::pair<int, int> range = normalized.offset_ranges[i];
  return {normalized.offsets[range.first].first,
          normalized.offsets[range.first + range.second - 1].second};
""", """  const auto& range = normalized.offset_ranges[i];
  const int last = range.first + range.second - 1;
  int begin = normalized.offsets[range.first].first;
  int end = normalized.offsets[last].second;
  return std::make_pair(begin, end);
"""))
r("into-encoding-refs", "C22,C23,C04", "src/tokenizer.cpp",
  ("""    Split split = pre_tokenized.splits[idx];
    if (split.tokens.empty()) {
      continue;
    }
    int length = split.offsets.second - split.offsets.first;
    for (Token token : split.tokens) {
""", """    const Split& split = pre_tokenized.splits[idx];
    const int length = split.offsets.second - split.offsets.first;
    for (const Token& token : split.tokens) {
"""))
r("into-encoding-order", "C22,C23,C04", "src/tokenizer.cpp",
  ("""      encoding.ids.push_back(token.id);
      encoding.tokens.push_back(token.value);
      // the characters of the split that the token covers
""", """      // the characters of the split that the token covers
"""),
  ("""      encoding.words.push_back(word_idx.has_value() ? word_idx.value() : idx);
""", """      encoding.tokens.push_back(token.value);
      encoding.ids.push_back(token.id);
      encoding.words.push_back(word_idx.value_or(idx));
"""))
r("encode-stages", "C23,C22,C04,C27", "src/tokenizer.cpp",
  ("""  PreTokenizedString pre_tokenized =
      PreTokenizedString(NormalizedString(sequence));
  if (added_vocabulary != nullptr) {
    pre_tokenized =
        added_vocabulary->extract_and_normalize(normalizer.get(), sequence);
  } else if (normalizer != nullptr) {
    pre_tokenized =
        PreTokenizedString(normalizer->normalize(NormalizedString(sequence)));
  }
""", """  NormalizedString text(sequence);
  if (added_vocabulary == nullptr && normalizer != nullptr) {
    text = normalizer->normalize(text);
  }
  PreTokenizedString pre_tokenized(text);
  if (added_vocabulary != nullptr) {
    pre_tokenized =
        added_vocabulary->extract_and_normalize(normalizer.get(), sequence);
  }
"""))
r("encode-final", "C23,C04,C13", "src/tokenizer.cpp",
  ("""  Encoding encoding = do_tokenize(pre_tokenized, std::nullopt, 0);
  return do_post_process(encoding, add_special_tokens);
""", """  return do_post_process(do_tokenize(pre_tokenized, std::nullopt, 0),
                         add_special_tokens);
"""))
r("post-process-reserved", "C23,C04,C01", "src/tokenizer.cpp",
  ("""    int reserved = add_special_tokens && post_processor != nullptr
                       ? post_processor->added_tokens()
                       : 0;
""", """    int reserved = 0;
    if (post_processor != nullptr && add_special_tokens) {
      reserved = post_processor->added_tokens();
    }
"""))
r("tokenizer-section-helper", "C25", "src/tokenizer.cpp",
  ("""    if (!tokenizer_json["truncation"].is_null()) {
      simdjson::ondemand::object truncation_params =
          tokenizer_json["truncation"].get_object();
      truncation = with_truncation(truncation_params);
    }
""", """    const bool has_truncation = !tokenizer_json["truncation"].is_null();
    if (has_truncation) {
      truncation = with_truncation(tokenizer_json["truncation"].get_object());
    }
"""))
r("tokenizer-config-empty", "C25", "src/tokenizer.cpp",
  ("  if (path.length() == 0 && config.length() == 0) {", "  if (path.empty() && config.empty()) {"),
  ("    if (path.length() != 0) {", "    if (!path.empty()) {"))
r("template-special-helper", "C05,C04,C23", "src/post_processor.cpp",
  ("""        SpecialToken special_token;
        auto it = std::find_if(special_tokens.begin(), special_tokens.end(),
                               [&piece](const SpecialToken& special_token_it) {
                                 return special_token_it.id == piece.second.id;
                               });

        if (it != special_tokens.end()) {
          special_token = *it;
        }
""", """        SpecialToken special_token;
        for (const SpecialToken& candidate : special_tokens) {
          if (candidate.id == piece.second.id) {
            special_token = candidate;
            break;
          }
        }
"""))
r("template-append-helper", "C05,C04", "src/post_processor.cpp",
  ("Encoding TemplateProcessing::process(Encoding encoding,\n", """static void append(Encoding* result, const Encoding& other) {
  result->ids.insert(result->ids.end(), other.ids.begin(), other.ids.end());
  result->type_ids.insert(result->type_ids.end(), other.type_ids.begin(),
                          other.type_ids.end());
  result->tokens.insert(result->tokens.end(), other.tokens.begin(),
                        other.tokens.end());
  result->words.insert(result->words.end(), other.words.begin(),
                       other.words.end());
  result->offsets.insert(result->offsets.end(), other.offsets.begin(),
                         other.offsets.end());
  result->special_tokens_mask.insert(result->special_tokens_mask.end(),
                                     other.special_tokens_mask.begin(),
                                     other.special_tokens_mask.end());
  result->attention_mask.insert(result->attention_mask.end(),
                                other.attention_mask.begin(),
                                other.attention_mask.end());
}

Encoding TemplateProcessing::process(Encoding encoding,
"""),
  ("""    result.ids.insert(result.ids.end(), final_encoding.ids.begin(),
                      final_encoding.ids.end());
    result.type_ids.insert(result.type_ids.end(),
                           final_encoding.type_ids.begin(),
                           final_encoding.type_ids.end());
    result.tokens.insert(result.tokens.end(), final_encoding.tokens.begin(),
                         final_encoding.tokens.end());
    result.words.insert(result.words.end(), final_encoding.words.begin(),
                        final_encoding.words.end());
    result.offsets.insert(result.offsets.end(), final_encoding.offsets.begin(),
                          final_encoding.offsets.end());
    result.special_tokens_mask.insert(
        result.special_tokens_mask.end(),
        final_encoding.special_tokens_mask.begin(),
        final_encoding.special_tokens_mask.end());
    result.attention_mask.insert(result.attention_mask.end(),
                                 final_encoding.attention_mask.begin(),
                                 final_encoding.attention_mask.end());
""", """    append(&result, final_encoding);
"""))
r("template-count", "C05,C04", "src/post_processor.cpp",
  ("""  int result = 0;
  for (const auto& piece : single) {
    if (piece.first == "SpecialToken") {
      for (const SpecialToken& special_token : special_tokens) {
        if (special_token.id == piece.second.id) {
          result += special_token.ids.size();
          break;
        }
      }
    }
  }
  return result;
""", """  int result = 0;
  for (const auto& piece : single) {
    if (piece.first != "SpecialToken") {
      continue;
    }
    auto it = std::find_if(special_tokens.begin(), special_tokens.end(),
                           [&piece](const SpecialToken& special_token) {
                             return special_token.id == piece.second.id;
                           });
    if (it != special_tokens.end()) {
      result += it->ids.size();
    }
  }
  return result;
"""))
r("template-overflow-first", "C05,C04", "src/post_processor.cpp",
  ("""  Encoding result;
  for (const Encoding& overflowing_encoding : encoding.overflowing) {
    result.overflowing.push_back(
        process(overflowing_encoding, add_special_tokens));
  }
  for (Encoding final_encoding : final_encodings) {
""", """  Encoding result;
  std::transform(encoding.overflowing.begin(), encoding.overflowing.end(),
                 std::back_inserter(result.overflowing),
                 [&](const Encoding& overflowing_encoding) {
                   return process(overflowing_encoding, add_special_tokens);
                 });
  for (const Encoding& final_encoding : final_encodings) {
"""))
r("bytelevel-offsets-ref", "C07,C04", "src/post_processor.cpp",
  ("""    std::pair<int, int> offsets = encoding.offsets[i];
    int leading_spaces = 0, trailing_spaces = 0;
""", """    std::pair<int, int>& offsets = new_encoding.offsets[i];
    int leading_spaces = 0;
    int trailing_spaces = 0;
"""),
  ("""    new_encoding.tokens[i] = token;
    new_encoding.offsets[i] = offsets;
""", ""))
r("bytelevel-offsets-flat", "C07", "src/post_processor.cpp",
  ("""    if (leading_spaces > 0 || trailing_spaces > 0) {
      if (leading_spaces > 0) {
        bool is_first = (i == 0 || offsets.first == 0);
        if (is_first && add_prefix_space && leading_spaces == 1) {
          leading_spaces = 0;
        }
        offsets.first =
            std::min(offsets.first + leading_spaces, offsets.second);
      }
      if (trailing_spaces > 0 && offsets.second >= trailing_spaces) {
        offsets.second =
            std::max(offsets.second - trailing_spaces, offsets.first);
      }
    }
""", """    if (leading_spaces > 0) {
      const bool is_first = offsets.first == 0 || i == 0;
      const int cut =
          add_prefix_space && is_first && leading_spaces == 1 ? 0
                                                              : leading_spaces;
      offsets.first = std::min(offsets.first + cut, offsets.second);
    }
    if (trailing_spaces > 0 && trailing_spaces <= offsets.second) {
      offsets.second =
          std::max(offsets.second - trailing_spaces, offsets.first);
    }
"""))
r("bytelevel-process-early", "C07,C04", "src/post_processor.cpp",
  ("""  if (trim_offsets) {
    encoding = process_offsets(encoding, add_prefix_space);
    for (Encoding& overflowing_encoding : encoding.overflowing) {
      overflowing_encoding =
          process_offsets(overflowing_encoding, add_prefix_space);
    }
  }
  return encoding;
""", """  if (!trim_offsets) {
    return encoding;
  }
  Encoding result = process_offsets(encoding, add_prefix_space);
  for (size_t i = 0; i < result.overflowing.size(); i++) {
    result.overflowing[i] =
        process_offsets(result.overflowing[i], add_prefix_space);
  }
  return result;
"""))
r("sequence-process-loop", "C24,C23", "src/post_processor.cpp",
  ("""  encoding = std::accumulate(
      processors.begin(), processors.end(), encoding,
      [add_special_tokens](const Encoding& acc,
                           const std::unique_ptr<PostProcessor>& processor) {
        return processor->process(acc, add_special_tokens);
      });
  return encoding;
""", """  for (const auto& processor : processors) {
    encoding = processor->process(encoding, add_special_tokens);
  }
  return encoding;
"""))
r("sequence-added-accumulate", "C24", "src/post_processor.cpp",
  ("""  int result = 0;
  for (const std::unique_ptr<PostProcessor>& processor : processors) {
    result += processor->added_tokens();
  }
  return result;
""", """  return std::accumulate(
      processors.begin(), processors.end(), 0,
      [](int sum, const std::unique_ptr<PostProcessor>& processor) {
        return sum + processor->added_tokens();
      });
"""))
r("post-pieces-helper", "C25", "src/post_processor.cpp",
  ("std::unique_ptr<PostProcessor> with_post_processor(\n", """static std::vector<std::pair<std::string, Piece>> read_pieces(
    simdjson::ondemand::value val) {
  std::vector<std::pair<std::string, Piece>> pieces;
  if (val.type() == simdjson::ondemand::json_type::null) {
    return pieces;
  }
  simdjson::ondemand::array pieces_array = val.get_array();
  for (auto element : pieces_array) {
    simdjson::ondemand::object map_piece = element.get_object().value();
    for (auto field : map_piece) {
      std::string type =
          std::string(static_cast<std::string_view>(field.escaped_key()));
      simdjson::ondemand::value piece = field.value();
      std::string id = std::string(
          static_cast<std::string_view>(piece["id"].value().get_string()));
      int type_id = static_cast<int>(piece["type_id"].value().get_int64());
      pieces.push_back({type, Piece(id, type_id)});
    }
  }
  return pieces;
}

std::unique_ptr<PostProcessor> with_post_processor(
"""),
  ("""    std::vector<std::pair<std::string, Piece>> pair;
    if (val.type() != simdjson::ondemand::json_type::null) {
      simdjson::ondemand::array pair_array = val.get_array();
      for (auto element : pair_array) {
        simdjson::ondemand::object map_piece = element.get_object().value();
        for (auto field : map_piece) {
          type =
              std::string(static_cast<std::string_view>(field.escaped_key()));
          val = field.value();
          std::string id = std::string(
              static_cast<std::string_view>(val["id"].value().get_string()));
          int type_id = static_cast<int>(val["type_id"].value().get_int64());
          pair.push_back({type, Piece(id, type_id)});
        }
      }
    }
""", """    std::vector<std::pair<std::string, Piece>> pair = read_pieces(val);
"""))
r("chinese-order", "C19,C21", "src/normalizer.cpp",
  ("""  return (c >= 0x4E00 && c <= 0x9FFF) || (c >= 0x3400 && c <= 0x4DBF) ||
""", """  if (c < 0x3400) {
    return false;
  }
  return (c >= 0x3400 && c <= 0x4DBF) || (c >= 0x4E00 && c <= 0x9FFF) ||
"""))
r("chinese-rewrite", "C19,C21", "src/normalizer.cpp",
  ("""  std::vector<std::pair<wchar_t, int>> new_chars;
  std::vector<int> transform_ids;
  int i = 0;
  for (wchar_t c : normalized.normalized) {
    if (is_chinese_char(c)) {
      new_chars.insert(new_chars.end(), {{L' ', 0}, {c, 1}, {L' ', 1}});
      transform_ids.push_back(i);
    } else {
      new_chars.push_back({c, 0});
    }
    i++;
  }
  int multi = 0;
  for (auto ti : transform_ids) {
    ti += multi;
    multi += 2;
    normalized.transform(ti, "pad", 0);
  }
  std::wstring result = normalized.normalized;
  i = 0;
  for (const auto& change : new_chars) {
    if (change.second > 0) {
      result.insert(i, 1, change.first);
    } else if (change.second < 0) {
      i += change.second;
      result.insert(i, 1, change.first);
    } else {
      result[i] = change.first;
    }
    i++;
  }
  normalized.normalized = result;
""", """  std::wstring result;
  for (wchar_t c : normalized.normalized) {
    if (is_chinese_char(c)) {
      normalized.transform(result.length(), "pad", 0);
      result += {L' ', c, L' '};
    } else {
      result += c;
    }
  }
  normalized.normalized = result;
"""))
r("clean-nested", "C19,C21", "src/normalizer.cpp",
  ("""    if (c != 0 && c != 0xFFFD && !is_control(c)) {
      if (is_whitespace(c)) {
        result.push_back(L' ');
      } else {
        result.push_back(c);
      }
    } else {
      normalized.transform(i, "erase", 0);
      continue;
    }
    i++;
""", """    if (c == 0 || c == 0xFFFD || is_control(c)) {
      normalized.transform(i, "erase", 0);
    } else {
      result += is_whitespace(c) ? L' ' : c;
      ++i;
    }
"""))
r("bert-strip-direct", "C19,C21", "src/normalizer.cpp",
  ("""  std::wstring result;
  int i = 0;
  std::vector<int> shrink_ids;
  for (wchar_t c : nfd_normalized.normalized) {
    if (u_charType(static_cast<UChar32>(c)) != U_NON_SPACING_MARK) {
      result.push_back(c);
    } else {
      shrink_ids.push_back(i);
    }
    i++;
  }
  int multi = 0;
  for (auto id : shrink_ids) {
    nfd_normalized.transform(id + multi, "shrink", 0);
    multi -= 1;
  }
""", """  std::wstring result;
  for (wchar_t c : nfd_normalized.normalized) {
    if (u_charType(static_cast<UChar32>(c)) == U_NON_SPACING_MARK) {
      nfd_normalized.transform(result.length(), "shrink", 0);
      continue;
    }
    result.push_back(c);
  }
"""))
r("bert-normalize-nested", "C19,C21", "src/normalizer.cpp",
  ("""  if (strip_accents || lowercase) {
    normalized = do_strip_accents(normalized);
  }
  if (lowercase) {
    normalized = do_lowercase(normalized);
  }
  return normalized;
""", """  if (lowercase) {
    return do_lowercase(do_strip_accents(normalized));
  }
  return strip_accents ? do_strip_accents(normalized) : normalized;
"""))
r("nf-helper", "C26,C21", "src/normalizer.cpp",
  ("NFC::NFC() {}\n", """static NormalizedString apply_form(NormalizedString normalized,
                                   UNormalizationMode mode,
                                   const icu::Normalizer2* normalizer) {
  UErrorCode status = U_ZERO_ERROR;
  icu::UnicodeString unicode_normalized = icu::UnicodeString::fromUTF32(
      reinterpret_cast<const UChar32*>(normalized.normalized.c_str()),
      normalized.normalized.length());
  icu::Normalizer::normalize(unicode_normalized, mode, 0, unicode_normalized,
                             status);
  if (U_FAILURE(status)) {
    throw std::runtime_error("ICU normalization failed with error code: " +
                             std::to_string(status));
  }
  std::wstring result;
  result.resize(unicode_normalized.countChar32());
  unicode_normalized.toUTF32(reinterpret_cast<UChar32*>(&result[0]),
                             unicode_normalized.countChar32(), status);
  align_normalized(&normalized, normalizer);
  normalized.normalized = result;
  return normalized;
}

NFC::NFC() {}
"""),
  ("""  icu::Normalizer::normalize(unicode_normalized, UNORM_NFKD, 0,
                             unicode_normalized, status);
  if (U_FAILURE(status)) {
    throw std::runtime_error("ICU normalization failed with error code: " +
                             std::to_string(status));
  }
  std::wstring result;
  result.resize(unicode_normalized.countChar32());
  unicode_normalized.toUTF32(reinterpret_cast<UChar32*>(&result[0]),
                             unicode_normalized.countChar32(), status);
  align_normalized(&normalized, icu::Normalizer2::getNFKDInstance(status));
  normalized.normalized = result;
  return normalized;
""", """  return apply_form(normalized, UNORM_NFKD,
                    icu::Normalizer2::getNFKDInstance(status));
"""))
r("align-for", "C26,C21", "src/normalizer.cpp",
  ("""  int start = 0, position = 0;
  while (start < text.length()) {
    icu::UnicodeString piece(static_cast<UChar32>(text[start]));
    int stop = start + 1;
    while (stop < text.length() &&
           !normalizer->hasBoundaryBefore(static_cast<UChar32>(text[stop]))) {
      piece.append(static_cast<UChar32>(text[stop]));
      stop++;
    }
    int length = normalizer->normalize(piece, status).countChar32();
    if (length != stop - start) {
      normalized->replace_range(position, stop - start, length);
    }
    position += length;
    start = stop;
  }
""", """  int position = 0;
  for (int start = 0, stop = 0; start < text.length(); start = stop) {
    icu::UnicodeString piece(static_cast<UChar32>(text[start]));
    for (stop = start + 1; stop < text.length(); stop++) {
      UChar32 next = static_cast<UChar32>(text[stop]);
      if (normalizer->hasBoundaryBefore(next)) {
        break;
      }
      piece.append(next);
    }
    int length = normalizer->normalize(piece, status).countChar32();
    if (length != stop - start) {
      normalized->replace_range(position, stop - start, length);
    }
    position += length;
  }
"""))
r("prepend-while", "C20,C21", "src/normalizer.cpp",
  ("""  for (int i = 0; i < prefix.length(); i++) {
    normalized.transform(0, "add", 1);
  }
  normalized.normalized = prefix + normalized.normalized;
""", """  int remaining = prefix.length();
  while (remaining-- > 0) {
    normalized.transform(0, "add", 1);
  }
  normalized.normalized.insert(0, prefix);
"""))
r("strip-accents-index", "C20,C21", "src/normalizer.cpp",
  ("""  for (wchar_t ch : normalized.normalized) {
    if (!isCombiningMark(ch)) {
      result += ch;
    } else {
      normalized.transform(result.length(), "erase", 0);
    }
  }
""", """  int kept = 0;
  for (size_t k = 0; k < normalized.normalized.size(); ++k) {
    const wchar_t ch = normalized.normalized[k];
    if (isCombiningMark(ch)) {
      normalized.transform(kept, "erase", 0);
      continue;
    }
    result.push_back(ch);
    ++kept;
  }
"""))
r("replace-range-single", "C21,C20", "src/normalizer.cpp",
  ("""  std::vector<std::pair<int, int>> new_offsets, new_offset_ranges;
  for (int j = 0; j < new_length; j++) {
    new_offsets.push_back({offsets[start].first, offsets[end - 1].second});
    new_offset_ranges.push_back({start + j, 1});
  }
""", """  std::vector<std::pair<int, int>> new_offsets;
  std::vector<std::pair<int, int>> new_offset_ranges;
  if (new_length > 0) {
    const std::pair<int, int> origin = {offsets[start].first,
                                        offsets[end - 1].second};
    new_offsets.assign(new_length, origin);
    for (int j = 0; j < new_length; j++) {
      new_offset_ranges.push_back({start + j, 1});
    }
  }
"""))
r("with-normalizer-bool", "C25", "src/normalizer.cpp",
  ("std::unique_ptr<Normalizer> with_normalizer(\n", """static bool bool_or(simdjson::ondemand::value val, bool otherwise) {
  return val.type() == simdjson::ondemand::json_type::null
             ? otherwise
             : static_cast<bool>(val.get_bool());
}

std::unique_ptr<Normalizer> with_normalizer(
"""),
  ("""    bool lowercase = val.type() == simdjson::ondemand::json_type::null
                         ? false
                         : static_cast<bool>(val.get_bool());
""", """    bool lowercase = bool_or(val, false);
"""))
r("find-matches-cur", "C08,C09,C06", "src/pre_tokenizer.cpp",
  ("""  int cur = 0;
  for (auto match : matches) {
    if (cur != match.first) {
      result.push_back({{cur, match.first}, false});
    }
    result.push_back({match, true});
    cur = match.second;
  }
  if (cur < input.length()) {
    result.push_back({{cur, input.length()}, false});
  }
""", """  int cur = 0;
  for (size_t i = 0; i < matches.size(); i++) {
    const auto& [start, end] = matches[i];
    if (start != cur) {
      result.emplace_back(std::make_pair(cur, start), false);
    }
    result.emplace_back(matches[i], true);
    cur = end;
  }
  if (input.length() > cur) {
    result.emplace_back(std::make_pair(cur, input.length()), false);
  }
"""))
r("split-flag", "C08,C09", "src/pre_tokenizer.cpp",
  ("""  switch (pattern) {
    case REMOVED:
      break;
    case ISOLATED:
      for (auto& match : matches) {
        match.second = false;
      }
      break;
  }
  for (auto match : matches) {
    if (!match.second) {
""", """  const bool keep_matches = pattern == ISOLATED;
  for (const auto& match : matches) {
    if (keep_matches || !match.second) {
"""))
r("split-append", "C08,C09", "src/pre_tokenizer.cpp",
  ("""    std::vector<Split> new_normalized_splits =
        split_normalized(orig_split, split_fn, pattern);
    new_splits.insert(new_splits.end(), new_normalized_splits.begin(),
                      new_normalized_splits.end());
  }
  splits = new_splits;
""", """    for (const Split& piece : split_normalized(orig_split, split_fn, pattern)) {
      new_splits.push_back(piece);
    }
  }
  splits = std::move(new_splits);
"""))
r("split-pre-invert", "C08", "src/pre_tokenizer.cpp",
  ("""    auto matches = find_matches(pattern, input);
    if (invert) {
      for (auto& match : matches) {
        match.second = !match.second;
      }
    }
    return matches;
""", """    auto matches = find_matches(pattern, input);
    for (auto& match : matches) {
      match.second = match.second != invert;
    }
    return matches;
"""))
r("bytelevel-pre-flip", "C06,C22,C27", "src/pre_tokenizer.cpp",
  ("""    if (use_regex) {
      return find_matches(regex, input);
    }
    return {{{0, input.length()}, false}};
""", """    if (!use_regex) {
      return {{{0, input.length()}, false}};
    }
    return find_matches(regex, input);
"""))
r("bytelevel-pre-needs-space", "C06,C22,C27", "src/pre_tokenizer.cpp",
  ("""    split.offsets.first += shift;
    if (add_prefix_space && split.tokens.empty() && !split.normalized.empty() &&
        !u_isUWhiteSpace(static_cast<UChar32>(
            pre_tokenized.normalized.normalized.at(split.offsets.first)))) {
""", """    split.offsets.first += shift;
    bool needs_space = add_prefix_space && split.tokens.empty() &&
                       split.normalized.length() > 0;
    if (needs_space &&
        !u_isUWhiteSpace(static_cast<UChar32>(
            pre_tokenized.normalized.normalized.at(split.offsets.first)))) {
"""))
r("bert-names", "C09", "src/pre_tokenizer.cpp",
  ("""  std::string pattern = "\\\\s+";
  return find_matches(pattern, input);
""", """  return find_matches("\\\\s+", input);
"""),
  ("""  std::string pattern = "\\\\p{P}";
  return find_matches(pattern, input);
""", """  static const std::string kPunctuation = "\\\\p{P}";
  return find_matches(kPunctuation, input);
"""))
r("seq-pre-loop", "C24", "src/pre_tokenizer.cpp",
  ("""  pre_tokenized =
      std::accumulate(pretokenizers.begin(), pretokenizers.end(), pre_tokenized,
                      [](const PreTokenizedString& pre_tokenized,
                         const std::unique_ptr<PreTokenizer>& pre_tokenizer) {
                        return pre_tokenizer->pre_tokenize(pre_tokenized);
                      });
  return pre_tokenized;
""", """  for (auto it = pretokenizers.begin(); it != pretokenizers.end(); ++it) {
    pre_tokenized = (*it)->pre_tokenize(pre_tokenized);
  }
  return pre_tokenized;
"""))
r("added-id-model-first", "C15,C14", "src/added_vocabulary.cpp",
  ("""  auto it = added_tokens_map_r.find(id);
  if (it != added_tokens_map_r.end()) {
    return (it->second).content;
  }
  return std::nullopt;
""", """  if (added_tokens_map_r.count(id) == 0) {
    return std::nullopt;
  }
  return added_tokens_map_r.at(id).content;
"""))
r("added-count", "C15", "src/added_vocabulary.cpp",
  ("""  int ignored = 0;
  for (auto token : new_tokens) {
    if (token.content.empty()) {
      ignored++;
      continue;
    }
""", """  int added = 0;
  for (const AddedToken& token : new_tokens) {
    if (token.content.empty()) {
      continue;
    }
    added++;
"""),
  ("  return new_tokens.size() - ignored;", "  return added;"))
r("added-model-id", "C15", "src/added_vocabulary.cpp",
  ("""    } else if (model != nullptr &&
               model->token_to_id(token.content).has_value()) {
      new_id = model->token_to_id(token.content).value();
    } else {
""", """    } else if (auto model_id = model != nullptr
                                   ? model->token_to_id(token.content)
                                   : std::nullopt;
               model_id.has_value()) {
      new_id = *model_id;
    } else {
"""))
r("added-special-first", "C15,C17", "src/added_vocabulary.cpp",
  ("""    if (token.special && !token.content.empty() &&
        special_tokens_set.count(token.content) != 1) {
      special_tokens.push_back(token);
      special_tokens_set.insert(token.content);
    }
""", """    if (!token.special || token.content.empty()) {
      continue;
    }
    if (special_tokens_set.insert(token.content).second) {
      special_tokens.push_back(token);
    }
"""))
r("truncate-guards", "C01,C02", "src/utils.cpp",
  ("""  int encoding_length = encoding.ids.size();
  if (max_length >= encoding_length) {
    return encoding;
  }
""", """  const int encoding_length = encoding.ids.size();
  const bool fits = encoding_length <= max_length;
  if (fits) {
    return encoding;
  }
"""))
r("truncate-encoding-strategy", "C01,C02,C04", "src/utils.cpp",
  ("""  int to_remove = encoding.ids.size() - max_length;
  if (strategy == LONGEST_FIRST_TRUNCATION_STRATEGY) {
    encoding =
        truncate(encoding, encoding.ids.size() - to_remove, stride, direction);
  } else if (strategy == ONLY_FIRST_TRUNCATION_STRATEGY) {
    int target_len = encoding.ids.size();
    if (target_len > to_remove) {
      encoding = truncate(encoding, max_length, stride, direction);
    }
  }
  return encoding;
""", """  if (strategy == LONGEST_FIRST_TRUNCATION_STRATEGY ||
      strategy == ONLY_FIRST_TRUNCATION_STRATEGY) {
    return truncate(encoding, max_length, stride, direction);
  }
  return encoding;
"""))
r("pad-target-helper", "C03,C04", "src/utils.cpp",
  ("Encoding Padding::pad_encoding(const Encoding& encoding) const {\n", """static int round_up(int length, int multiple) {
  if (multiple <= 0) {
    return length;
  }
  int rest = length % multiple;
  return rest > 0 ? length + multiple - rest : length;
}

Encoding Padding::pad_encoding(const Encoding& encoding) const {
"""),
  ("""  if (pad_to_multiple_of > 0 && pad_length % pad_to_multiple_of > 0) {
    pad_length += pad_to_multiple_of - pad_length % pad_to_multiple_of;
  }
""", """  pad_length = round_up(pad_length, pad_to_multiple_of);
"""))
r("pad-switch", "C03,C04", "src/utils.cpp",
  ("  } else if (direction == RIGHT_PADDING_DIRECTION) {\n    encoding.ids.insert(encoding.ids.end(), pad_length, pad_id);", "  }\n  if (direction == RIGHT_PADDING_DIRECTION) {\n    encoding.ids.resize(target_length, pad_id);"))
r("with-truncation-order", "C25", "src/utils.cpp",
  ("""  val = truncation_params["direction"].value();
  std::string direction =
      std::string(val.type() == simdjson::ondemand::json_type::null
                      ? ""
                      : static_cast<std::string_view>(val.get_string()));
""", """  std::string direction;
  val = truncation_params["direction"].value();
  if (val.type() != simdjson::ondemand::json_type::null) {
    direction = std::string(static_cast<std::string_view>(val.get_string()));
  }
"""))
r("map-ints-index", "C25,C14", "src/utils.cpp",
  ("""    result.insert(
        {std::string(static_cast<std::string_view>(element.escaped_key())),
         static_cast<int>(element.value().get_int64())});
""", """    std::string key =
        std::string(static_cast<std::string_view>(element.escaped_key()));
    int value = static_cast<int>(element.value().get_int64());
    result.emplace(key, value);
"""))
r("wordpiece-result-helper", "C10,C22", "src/model.cpp",
  ("""        if (vocab.count(sub_sequence) != 0) {
          auto it = vocab.find(sub_sequence);
          if (it != vocab.end()) {
            cur_sequence_token = Token(it->second, sub_sequence, {start, end});
          }
          break;
        }
        end -= 1;
""", """        auto it = vocab.find(sub_sequence);
        if (it != vocab.end()) {
          cur_sequence_token = Token(it->second, sub_sequence, {start, end});
          break;
        }
        --end;
"""))
r("wordpiece-bad", "C10", "src/model.cpp",
  ("""      if (!cur_sequence_token.has_value()) {
        is_bad = true;
        break;
      }
      sub_tokens.push_back(cur_sequence_token.value());
      start = end;
""", """      is_bad = !cur_sequence_token.has_value();
      if (is_bad) {
        break;
      }
      sub_tokens.push_back(*cur_sequence_token);
      start = end;
"""))
r("bpe-tokens-position", "C11,C22", "src/model.cpp",
  ("""    int new_pos = pos + symbol.len;
    result.push_back(Token(symbol.c, vocab_r.at(symbol.c), {pos, new_pos}));
    pos = new_pos;
""", """    result.emplace_back(symbol.c, vocab_r.at(symbol.c),
                        std::make_pair(pos, pos + symbol.len));
    pos += symbol.len;
"""))
r("bpe-cache-emplace", "C13,C12", "src/model.cpp",
  ("""  auto word = merge_word(sequence);
  auto result = word_to_tokens(word);
  cache.insert({sequence, word});
  return result;
""", """  const Word word = merge_word(sequence);
  cache[sequence] = word;
  return word_to_tokens(word);
"""))
r("bpe-tokenize-word", "C11,C12,C13", "src/model.cpp",
  ("""    std::string sequence = split.normalized;
    if (dropout == 0.0f) {
      split.tokens = with_char_offsets(tokenize_with_cache(sequence), sequence);
    } else {
      auto word = merge_word(sequence);
      split.tokens = with_char_offsets(word_to_tokens(word), sequence);
    }
""", """    const std::string& sequence = split.normalized;
    std::vector<Token> tokens = dropout != 0.0f
                                    ? word_to_tokens(merge_word(sequence))
                                    : tokenize_with_cache(sequence);
    split.tokens = with_char_offsets(tokens, sequence);
"""))
r("bpe-merge-guards", "C12", "src/model.cpp",
  ("""    if (symbols[top.pos].len == 0) {
      continue;
    }
    if (symbols[top.pos].next == -1) {
      continue;
    }
    int next_pos = symbols[top.pos].next;
    if (next_pos >= symbols.size()) {
      continue;
    }
""", """    if (symbols[top.pos].len == 0 || symbols[top.pos].next == -1) {
      continue;
    }
    const int next_pos = symbols[top.pos].next;
"""))
r("bpe-ctor-range", "C12,C25", "src/model.cpp",
  ("""    if (iss >> part1 >> part2) {
      auto it1 = vocab.find(part1);
      auto it2 = vocab.find(part2);
      if (it1 != vocab.end() && it2 != vocab.end()) {
        int a_id = it1->second;
        int b_id = it2->second;
""", """    if (!(iss >> part1 >> part2)) {
      continue;
    }
    {
      auto it1 = vocab.find(part1);
      auto it2 = vocab.find(part2);
      if (it1 != vocab.end() && it2 != vocab.end()) {
        const int a_id = it1->second;
        const int b_id = it2->second;
"""))
r("bpe-unk-find", "C11,C12", "src/model.cpp",
  ("""      if (unk_token.size() != 0) {
        if (unk.has_value() && fuse_unk) {
          unk = {unk->first, unk->second + sub_len};
        } else {
          if (unk.has_value()) {
            word.add(unk->first, unk->second);
          }
          auto unk_it = vocab.find(unk_token);
          if (unk_it != vocab.end()) {
            unk = {unk_it->second, sub_len};
          }
        }
      }
""", """      if (unk_token.empty()) {
        continue;
      }
      if (fuse_unk && unk.has_value()) {
        unk->second += sub_len;
        continue;
      }
      if (unk.has_value()) {
        word.add(unk->first, unk->second);
      }
      if (auto unk_it = vocab.find(unk_token); unk_it != vocab.end()) {
        unk = {unk_it->second, sub_len};
      }
"""))
r("vocab-size", "C14,C15", "src/model.cpp",
  ("int Model::get_vocab_size() const { return vocab.size(); }", "int Model::get_vocab_size() const {\n  return static_cast<int>(vocab.size());\n}"))


def run(job, harness):
    name, props, file, pairs = job
    d = tempfile.mkdtemp(prefix="refac_")
    out = []
    try:
        shutil.copytree("/repo/src", d + "/src")
        shutil.copytree("/repo/include", d + "/include")
        p = os.path.join(d, file)
        s = open(p).read()
        for a, b in pairs:
            if a not in s:
                return ["%-28s does not apply: %s" % (name, a[:60])]
            s = s.replace(a, b)
        open(p, "w").write(s)
        for prop in props:
            e = dict(os.environ, VERIF_REPO=d)
            cmd = [sys.executable, HERE + ("/run_check.py" if harness else "/tools/prove.py"), prop]
            r = subprocess.run(cmd, env=e, capture_output=True, text=True)
            if harness:
                out.append("%-28s %s rc=%d %s" % (name, prop, r.returncode, r.stdout.strip().splitlines()[-1][:200]))
            else:
                st = [l for l in r.stdout.splitlines() if '"status"' in l or '"why"' in l or l.startswith("FAILED")]
                out.append("%-28s %s %s" % (name, prop, " ".join(x.strip()[:300] for x in st)))
    finally:
        shutil.rmtree(d)
    return out


if __name__ == "__main__":
    a = sys.argv[1:]
    harness = "--harness" in a
    names = [x for x in a if x != "--harness"]
    jobs = [j for j in R if not names or j[0] in names]
    with ThreadPoolExecutor(3) as ex:
        for o in ex.map(lambda j: run(j, harness), jobs):
            print("\n".join(o), flush=True)
