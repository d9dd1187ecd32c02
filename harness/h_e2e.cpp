// C04, C22, C23, C24, C25, C27: whole pipelines, sequences and configurations.
#include <unistd.h>

#include <fstream>

#include "h.h"
#include "tokenizers/tokenizer.h"

namespace {

Str b2s(bool b) { return b ? "true" : "false"; }
template <class F>
Str jlist(const Strs& v, F f) {
  Str o = "[";
  for (size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + f(v[i]);
  return o + "]";
}

// ---- random components as JSON ----
Str j_normalizer(Rng& r, int depth = 1) {
  switch (r(depth > 0 ? 10 : 9)) {
    case 0: return "{\"type\":\"BertNormalizer\",\"clean_text\":" + b2s(r.coin()) + ",\"handle_chinese_chars\":" + b2s(r.coin()) + ",\"strip_accents\":" + (r.coin() ? "null" : b2s(r.coin())) + ",\"lowercase\":" + b2s(r.coin()) + "}";
    case 1: return "{\"type\":\"NFC\"}";
    case 2: return "{\"type\":\"NFD\"}";
    case 3: return "{\"type\":\"NFKC\"}";
    case 4: return "{\"type\":\"NFKD\"}";
    case 5: return "{\"type\":\"Prepend\",\"prepend\":" + jstr(r.pick(Strs{"_", "\xe2\x96\x81", "ab"})) + "}";
    case 6: return "{\"type\":\"Replace\",\"pattern\":{\"String\":" + jstr(r.pick(Strs{" ", "a", "ab"})) + "},\"content\":" + jstr(r.pick(Strs{"_", "\xe2\x96\x81", "", "xy"})) + "}";
    case 7: return "{\"type\":\"Strip\",\"strip_left\":" + b2s(r.coin()) + ",\"strip_right\":" + b2s(r.coin()) + "}";
    case 8: return "{\"type\":\"StripAccents\"}";
    default: {
      Str o = "{\"type\":\"Sequence\",\"normalizers\":[";
      for (int i = r(4), k = 0; k < i; k++) o += (k ? "," : "") + (r.one_in(6) ? Str("{\"type\":\"Lowercase\"}") : j_normalizer(r, depth - 1));
      return o + "]}";
    }
  }
}
Str j_pretok(Rng& r, int depth = 1, bool bytes = true) {
  switch (r(depth > 0 ? 4 : 3)) {
    case 0: return "{\"type\":\"BertPreTokenizer\"}";
    case 1: return "{\"type\":\"Split\",\"pattern\":{\"Regex\":" + jstr(r.pick(Strs{"\\s+", "a", "[ab]+", "\\p{L}+", "."})) + "},\"behavior\":" + jstr(r.coin() ? "Isolated" : "Removed") + ",\"invert\":" + b2s(r.one_in(3)) + "}";
    case 2:
      if (bytes) return "{\"type\":\"ByteLevel\",\"add_prefix_space\":" + b2s(r.coin()) + ",\"trim_offsets\":true,\"use_regex\":" + b2s(r.coin()) + "}";
      return "{\"type\":\"BertPreTokenizer\"}";
    default: {
      Str o = "{\"type\":\"Sequence\",\"pretokenizers\":[";
      for (int i = r(4), k = 0; k < i; k++) o += (k ? "," : "") + (r.one_in(6) ? Str("{\"type\":\"Whitespace\"}") : j_pretok(r, depth - 1, bytes));
      return o + "]}";
    }
  }
}
Str j_special(const Str& id, const std::vector<int>& ids) {
  Str o = jstr(id) + ":{\"id\":" + jstr(id) + ",\"ids\":[", t;
  for (size_t i = 0; i < ids.size(); i++) {
    o += (i ? "," : "") + std::to_string(ids[i]);
    t += (i ? "," : "") + jstr(id + std::to_string(i));
  }
  return o + "],\"tokens\":[" + t + "]}";
}
Str j_post(Rng& r, int depth = 1, bool plain = false) {
  switch (plain ? 0 : r(depth > 0 ? 4 : 3)) {
    case 0:
    case 1: {
      Str o = "{\"type\":\"TemplateProcessing\",\"single\":[";
      auto sp = [&](const Str& id, int t) { return "{\"SpecialToken\":{\"id\":" + jstr(id) + ",\"type_id\":" + std::to_string(t) + "}}"; };
      bool cls = r.coin();
      if (cls) o += sp("[CLS]", r(3)) + ",";
      o += "{\"Sequence\":{\"id\":\"A\",\"type_id\":" + std::to_string(r(3)) + "}}";
      if (r.coin()) o += "," + sp("[SEP]", r(3));
      o += "],\"pair\":[],\"special_tokens\":{" + j_special("[CLS]", r.coin() ? std::vector<int>{101} : std::vector<int>{101, 105}) + "," + j_special("[SEP]", {102}) + "}}";
      return o;
    }
    case 2: return "{\"type\":\"ByteLevel\",\"add_prefix_space\":" + b2s(r.coin()) + ",\"trim_offsets\":" + b2s(r.coin()) + "}";
    default: {
      Str o = "{\"type\":\"Sequence\",\"processors\":[";
      for (int i = r(4), k = 0; k < i; k++) o += (k ? "," : "") + (r.one_in(6) ? Str("{\"type\":\"BertProcessing\"}") : j_post(r, depth - 1));
      return o + "]}";
    }
  }
}
Str j_truncation(Rng& r) {
  int m = r(7);
  return "{\"direction\":" + jstr(r.coin() ? "Right" : "Left") + ",\"max_length\":" + std::to_string(m + 3) + ",\"strategy\":" + jstr(r.coin() ? "LongestFirst" : "OnlyFirst") + ",\"stride\":" + std::to_string(m > 3 ? r(m - 3) : 0) + "}";
}
Str j_padding(Rng& r) {
  return "{\"strategy\":" + (r.coin() ? Str("\"BatchLongest\"") : "{\"Fixed\":" + std::to_string(r(14)) + "}") + ",\"direction\":" + jstr(r.coin() ? "Right" : "Left") + ",\"pad_to_multiple_of\":" + (r.coin() ? Str("null") : std::to_string(r(6))) + ",\"pad_id\":" + std::to_string(r(9)) + ",\"pad_type_id\":" + std::to_string(r(3)) + ",\"pad_token\":" + jstr("[PAD]") + "}";
}
Str j_vocab(const Strs& v) {
  Str o = "{";
  for (size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + jstr(v[i]) + ":" + std::to_string(i);
  return o + "}";
}
Strs g_units = {"a", "b", "c", ".", "1", "\xc3\xa9", "\xe4\xb8\x80", "e", "_", "\xe2\x96\x81", "x", "y"};
Str j_wordpiece(Rng& r, bool unk = true) {
  Strs v = {"[UNK]"};
  std::set<Str> have(v.begin(), v.end());
  auto add = [&](const Str& s) {
    if (have.insert(s).second) v.push_back(s);
  };
  for (auto& u : g_units)
    if (!r.one_in(5)) {
      add(u);
      add("##" + u);
    }
  for (int i = r(8); i > 0; i--) add((r.coin() ? "##" : "") + r.pick(g_units) + r.pick(g_units) + (r.coin() ? r.pick(g_units) : ""));
  return "{\"type\":\"WordPiece\",\"unk_token\":\"[UNK]\",\"continuing_subword_prefix\":\"##\",\"max_input_chars_per_word\":" + std::to_string(r.one_in(5) ? r(8) : 100) + ",\"vocab\":" + j_vocab(v) + "}";
}
Str j_bpe(const Strs& v, const Strs& merges, Rng& r, const Str& unk) {
  return "{\"type\":\"BPE\",\"dropout\":null,\"unk_token\":" + (unk.empty() ? Str("null") : jstr(unk)) + ",\"continuing_subword_prefix\":null,\"end_of_word_suffix\":null,\"fuse_unk\":" + b2s(r.coin()) + ",\"byte_fallback\":false,\"ignore_merges\":" + b2s(r.one_in(4)) + ",\"vocab\":" + j_vocab(v) + ",\"merges\":" + jlist(merges, jstr) + "}";
}
Str j_bpe_chars(Rng& r) {
  Strs v = {"<unk>"}, m;
  std::set<Str> have(v.begin(), v.end());
  Strs all;
  for (auto& u : g_units)
    if (!r.one_in(5)) {
      if (have.insert(u).second) v.push_back(u);
      all.push_back(u);
    }
  if (have.insert(" ").second) v.push_back(" ");
  all.push_back(" ");
  for (int i = r(10); i > 0; i--) {
    Str x = r.pick(all), y = r.pick(all);
    m.push_back(x + " " + y);
    if (x.find(' ') != Str::npos || y.find(' ') != Str::npos) {
      m.pop_back();
      continue;
    }
    if (have.insert(x + y).second) v.push_back(x + y);
    all.push_back(x + y);
  }
  return j_bpe(v, m, r, "<unk>");
}
char32_t byte_char(int b) {
  int k = 0;
  auto own = [](int x) { return (x >= '!' && x <= '~') || (x >= 0xA1 && x <= 0xAC) || (x >= 0xAE && x <= 0xFF); };
  if (own(b)) return b;
  for (int x = 0; x < b; x++) k += !own(x);
  return 0x100 + k;
}
Str j_bpe_bytes(Rng& r) {
  Strs v, m, all;
  std::set<Str> have;
  for (int b = 0; b < 256; b++) {
    v.push_back(u8(byte_char(b)));
    have.insert(v.back());
    if (b == ' ' || (b >= 'a' && b < 'e') || b == 0xC3 || b == 0xA9 || b == 0xE4 || b == 0xB8 || b == 0x80 || b == 0xF0 || b == 0x9F) {
      all.push_back(v.back());
      all.push_back(v.back());
    } else if (r.one_in(10)) {
      all.push_back(v.back());
    }
  }
  if (r.coin()) std::shuffle(v.begin(), v.end(), r.g);
  for (int i = r(14); i > 0; i--) {
    Str x = r.pick(all), y = r.pick(all);
    m.push_back(x + " " + y);
    if (have.insert(x + y).second) v.push_back(x + y);
    all.push_back(x + y);
    all.push_back(x + y);
  }
  return j_bpe(v, m, r, "");
}
Str j_added(Rng& r, bool ascii_only = false) {
  Strs pool = {"<s>", "[SEP]", "ab", "x y", "a", "[UNK]", "<mask>", "<e>"};
  if (!ascii_only) {
    pool.push_back("\xc3\xa9");
    pool.push_back(u8(char32_t(0x1F600)));
  }
  Str o = "[";
  for (int i = r(4), k = 0; k < i; k++)
    o += Str(k ? "," : "") + "{\"id\":" + std::to_string(k) + ",\"content\":" + jstr(r.pick(pool)) + ",\"single_word\":" + b2s(r.one_in(4)) + ",\"lstrip\":" + b2s(!ascii_only && r.one_in(4)) + ",\"rstrip\":" + b2s(!ascii_only && r.one_in(4)) + ",\"normalized\":" + b2s(r.one_in(3)) + ",\"special\":" + b2s(r.coin()) + "}";
  return o + "]";
}
const Strs kParts = {"truncation", "padding", "added_tokens", "normalizer", "pre_tokenizer", "model", "post_processor", "decoder"};
Str config(const Case& c) {
  Str o = "{\"version\":\"1.0\"";
  for (auto& p : kParts) o += "," + jstr(p) + ":" + (c.S(p).empty() ? Str("null") : c.S(p));
  return o + "}";
}
Str e2e_text(Rng& r) {
  Strs parts = {"a", "b", "c", " ", " ", ".", "1", "\xc3\xa9", "\xe4\xb8\x80", "e\xcc\x81", "<s>", "[SEP]", "ab", "x", "A", u8(char32_t(0x1F600)), "\t", "<mask>", "[UNK]", "x y"};
  Str t;
  if (r.one_in(5)) return random_text(r, 12);
  for (int i = r(r.one_in(25) ? 150 : 14); i > 0; i--) t += r.pick(parts);
  return t;
}
void random_config(Rng& r, Case& c, bool all_parts) {
  auto opt = [&](const Str& k, const Str& v) { c.s(k, all_parts || r.coin() ? v : ""); };
  opt("truncation", j_truncation(r));
  opt("padding", j_padding(r));
  opt("normalizer", j_normalizer(r));
  opt("pre_tokenizer", j_pretok(r));
  Str m = r(3) == 0 ? j_bpe_bytes(r) : r.coin() ? j_wordpiece(r) : j_bpe_chars(r);
  // unusual values
  auto swap = [&](const Str& from, const Strs& to) {
    size_t at = m.find(from);
    if (at != Str::npos && r.one_in(3)) m.replace(at, from.size(), r.pick(to));
  };
  swap("\"unk_token\":\"[UNK]\"", {"\"unk_token\":\"\"", "\"unk_token\":null", "\"unk_token\":\"zz\"", "\"unk_token\":\"a\""});
  swap("\"continuing_subword_prefix\":\"##\"", {"\"continuing_subword_prefix\":\"\"", "\"continuing_subword_prefix\":null", "\"continuing_subword_prefix\":\"@@\""});
  swap("\"unk_token\":\"<unk>\"", {"\"unk_token\":null", "\"unk_token\":\"a\"", "\"unk_token\":\"zz\""});
  swap("\"end_of_word_suffix\":null", {"\"end_of_word_suffix\":\"</w>\"", "\"end_of_word_suffix\":\"a\""});
  swap("\"byte_fallback\":false", {"\"byte_fallback\":true"});
  if (!c.S("truncation").empty() && r.one_in(3)) {
    int n = r.one_in(4) ? r(3) : r(60);
    c.s("truncation", "{\"direction\":" + jstr(r.coin() ? "Right" : "Left") + ",\"max_length\":" + std::to_string(n) + ",\"strategy\":" + jstr(r.coin() ? "LongestFirst" : "OnlyFirst") + ",\"stride\":" + std::to_string(r(n + 1)) + "}");
  }
  c.s("model", r.one_in(8) ? "" : m);
  c.s("added_tokens", r.one_in(3) ? "" : j_added(r));
  opt("post_processor", j_post(r));
  c.s("text", e2e_text(r)).i("add_special_tokens", r.coin());
}

// ---- reference pipeline from the public stages ----
template <class T>
std::unique_ptr<T> part(const Case& c, const Str& k, std::unique_ptr<T> (*f)(simdjson::ondemand::object)) {
  if (c.S(k).empty()) return nullptr;
  Json j(c.S(k));
  return f(j.object());
}
struct Stages {
  std::unique_ptr<Truncation> truncation;
  std::unique_ptr<Padding> padding;
  std::unique_ptr<AddedVocabulary> added;
  std::unique_ptr<Normalizer> normalizer;
  std::unique_ptr<PreTokenizer> pretok;
  std::unique_ptr<Model> model;
  std::unique_ptr<PostProcessor> post;
};
Stages stages(const Case& c) {
  Stages s;
  s.truncation = part(c, "truncation", with_truncation);
  s.padding = part(c, "padding", with_padding);
  s.normalizer = part(c, "normalizer", with_normalizer);
  s.pretok = part(c, "pre_tokenizer", with_pre_tokenizer);
  s.model = part(c, "model", with_model);
  s.post = part(c, "post_processor", with_post_processor);
  if (!c.S("added_tokens").empty()) {
    Json j(c.S("added_tokens"));
    s.added = with_added_vocabulary(j.array());
    std::vector<AddedToken> t = s.added->added_tokens;
    s.added->add_tokens(t, s.model.get(), s.normalizer.get());
  }
  return s;
}
PreTokenizedString ref_splits(Stages& s, const Str& text) {
  NormalizedString n(wide(text));
  PreTokenizedString p{n};
  if (s.added)
    p = s.added->extract_and_normalize(s.normalizer.get(), wide(text));
  else if (s.normalizer)
    p = PreTokenizedString(s.normalizer->normalize(n));
  if (s.pretok) p = s.pretok->pre_tokenize(p);
  if (s.model) p = s.model->tokenize(p);
  return p;
}
PII aligned(const NormalizedString& n, int i) {
  PII r = n.offset_ranges.at(i);
  return {n.offsets.at(r.first).first, n.offsets.at(r.first + r.second - 1).second};
}
Encoding collect(const PreTokenizedString& p) {
  Encoding e;
  for (size_t i = 0; i < p.splits.size(); i++)
    for (auto& t : p.splits[i].tokens) {
      int base = p.splits[i].offsets.first, len = p.splits[i].offsets.second - base;
      int a = std::min(t.offsets.first, len - 1), b = std::max(std::min(t.offsets.second, len) - 1, a);
      e.ids.push_back(t.id);
      e.tokens.push_back(t.value);
      e.offsets.push_back({aligned(p.normalized, base + a).first, aligned(p.normalized, base + b).second});
      e.words.push_back((int)i);
      e.type_ids.push_back(0);
      e.special_tokens_mask.push_back(0);
      e.attention_mask.push_back(1);
    }
  return e;
}

// a tokenizer is rebuilt only when the configuration changes
Tokenizer& tokenizer(const Case& c) {
  static Str last;
  static std::unique_ptr<Tokenizer> t;
  Str cfg = config(c);
  if (!t || cfg != last) {
    t.reset();
    t = std::make_unique<Tokenizer>("", cfg);
    last = cfg;
  }
  return *t;
}

Err check_order(const Case& c) {
  Stages s = stages(c);
  bool add = c.I("add_special_tokens");
  Encoding want = collect(ref_splits(s, c.S("text")));
  std::optional<Encoding> got;
  bool rejected = false;
  if (s.truncation) {
    int n = want.ids.size();
    try {
      want = add && s.post ? s.truncation->truncate_encoding(want, s.post->added_tokens()) : s.truncation->truncate_encoding(want);
      Json j(c.S("truncation"));
      int room = std::max((int)j.object()["max_length"].get_int64() - (add && s.post ? s.post->added_tokens() : 0), 0);
      EXPECT((int)want.ids.size() == std::min(n, room), n << " tokens are cut to " << want.ids.size() << " where " << room << " fit");
    } catch (const std::invalid_argument&) {
      rejected = true;
    }
  }
  if (!rejected) {
    if (s.post) want = s.post->process(want, add);
    if (s.padding) want = s.padding->pad_encoding(want);
  }
  try {
    got = tokenizer(c).encode(wide(c.S("text")), add);
  } catch (const std::invalid_argument&) {
  }
  if (rejected || !got) {
    EXPECT(rejected && !got, "rejected by only one of the two");
    return {};
  }
  g_trivial = want.ids.empty();
  return same_encoding(want, *got, "encode " + esc(c.S("text")));
}
void explore_order(Explorer& ex) {
  if (ex.hunting) {  // more words than 16 bits can count
    Str t;
    for (int i = 0; i < 33000; i++) t += "a ";
    ex.run(Case().s("pre_tokenizer", "{\"type\":\"BertPreTokenizer\"}").s("model", "{\"type\":\"WordPiece\",\"unk_token\":\"[UNK]\",\"continuing_subword_prefix\":\"##\",\"max_input_chars_per_word\":100,\"vocab\":{\"[UNK]\":0,\"a\":1}}")
               .s("truncation", "").s("padding", "").s("normalizer", "").s("added_tokens", "").s("post_processor", "").s("text", t).i("add_special_tokens", 0));
  }
  do {
    for (int k = 0; k < 5; k++) {
      Case c;
      random_config(ex.rng, c, ex.rng.coin());
      for (int j = 0; j < 6; j++) {
        c.s("text", e2e_text(ex.rng)).i("add_special_tokens", ex.rng.coin());
        ex.run(c);
      }
    }
  } while (ex.more());
}

Err check_parallel(const Case& c) {
  Encoding e;
  try {
    e = tokenizer(c).encode(wide(c.S("text")), c.I("add_special_tokens"));
  } catch (const std::invalid_argument&) {
    g_trivial = true;
    return {};
  }
  EXPECT(parallel(e), "arrays of different lengths: " << show(e));
  // single stages on any encoding with parallel arrays
  Stages s = stages(c);
  Encoding in = make_encoding(c.I("length"), 3);
  for (int i = 0; i < c.I("overflowing"); i++) in.overflowing.push_back(make_encoding(i * 2, 4 + i));
  if (s.post) EXPECT(parallel(s.post->process(in, c.I("add_special_tokens"))), "post-processing: " << show(s.post->process(in, c.I("add_special_tokens"))));
  if (s.padding) EXPECT(parallel(s.padding->pad_encoding(in)), "padding: " << show(s.padding->pad_encoding(in)));
  if (s.truncation) {
    try {
      EXPECT(parallel(s.truncation->truncate_encoding(in)), "truncation: " << show(s.truncation->truncate_encoding(in)));
    } catch (const std::invalid_argument&) {
    }
  }
  return {};
}
void explore_parallel(Explorer& ex) {
  do {
    for (int k = 0; k < 5; k++) {
      Case c;
      random_config(ex.rng, c, ex.rng.coin());
      for (int j = 0; j < 6; j++) {
        c.s("text", e2e_text(ex.rng)).i("add_special_tokens", ex.rng.coin()).i("length", ex.rng(12)).i("overflowing", ex.rng(3));
        ex.run(c);
      }
    }
  } while (ex.more());
}

// ---- offsets ----
Err check_offsets(const Case& c) {
  Str text = c.S("text");
  std::u32string t = u32(text);
  int n = t.size();
  Encoding e = tokenizer(c).encode(wide(text), c.I("add_special_tokens"));
  std::vector<Encoding> all = {e};
  for (auto& o : e.overflowing) all.push_back(o);
  bool trimmed = c.S("post_processor").find("ByteLevel") != Str::npos, bytes = c.S("pre_tokenizer").find("ByteLevel") != Str::npos;
  std::set<Str> added;
  if (!c.S("added_tokens").empty()) {
    Json j(c.S("added_tokens"));
    auto voc = with_added_vocabulary(j.array());
    for (auto& a : voc->added_tokens) added.insert(a.content);
  }
  g_trivial = e.ids.empty();
  for (auto& w : all) {
    int prev = 0, prev_end = 0;
    for (size_t i = 0; i < w.ids.size(); i++) {
      auto [a, b] = w.offsets[i];
      EXPECT(0 <= a && a <= b && b <= n, "offsets (" << a << "," << b << ") in a text of " << n << " characters: " << show(w));
      if (w.special_tokens_mask[i]) continue;
      if (!trimmed) {
        EXPECT(a >= prev && b >= prev_end, "offsets go backwards: " << show(w));
        prev = a;
        prev_end = b;
      }
      if (!bytes && !trimmed && c.S("normalizer").empty()) {
        Str part = u8(t.substr(a, b - a)), v = w.tokens[i];
        if (v == "[UNK]" || v == "<unk>") continue;
        EXPECT(part == v || "##" + part == v, "token " << esc(v) << " has offsets (" << a << "," << b << ") = " << esc(part) << " in " << esc(text));
      }
    }
  }
  if (c.S("pre_tokenizer").rfind("{\"type\":\"ByteLevel\",\"add_prefix_space\":false", 0) == 0 && c.S("normalizer").empty() && c.S("added_tokens").empty() && c.S("truncation").empty() &&
      c.S("model").find("\"BPE\"") != Str::npos && !trimmed) {
    // byte-level tokens stand for consecutive bytes of the text: the offsets are those of the characters these belong to
    std::vector<int> owner;
    for (int i = 0; i < n; i++) owner.insert(owner.end(), u8(t.substr(i, 1)).size(), i);
    size_t at = 0;
    bool known = true;
    for (size_t i = 0; i < e.ids.size() && known; i++)
      if (!e.special_tokens_mask[i] && e.attention_mask[i]) known = e.tokens[i] != "[UNK]" && e.tokens[i] != "<unk>";
    for (size_t i = 0; i < e.ids.size() && known; i++) {
      if (e.special_tokens_mask[i] || !e.attention_mask[i]) continue;
      size_t len = u32(e.tokens[i]).size();
      EXPECT(len > 0 && at + len <= owner.size(), "tokens stand for more than the text " << esc(text) << ": " << show(e));
      PII want = {owner[at], owner[at + len - 1] + 1};
      EXPECT(e.offsets[i] == want, "token " << esc(e.tokens[i]) << " of " << esc(text) << " has offsets " << show(std::vector<PII>{e.offsets[i]}) << " instead of " << show(std::vector<PII>{want}));
      at += len;
    }
    EXPECT(!known || at == owner.size(), "tokens stand for " << at << " of " << owner.size() << " bytes of " << esc(text) << ": " << show(e));
  }
  if (c.S("truncation").empty() && c.S("post_processor").empty() && c.S("padding").empty() && c.S("added_tokens").empty()) {
    // the alignment table of the normalizer, applied by hand
    Stages s = stages(c);
    Encoding want = collect(ref_splits(s, text));
    EXPECT(want.offsets == e.offsets, "offsets " << show(e.offsets) << " instead of " << show(want.offsets) << " for " << show(e.tokens));
  }
  return {};
}
void explore_offsets(Explorer& ex) {
  Rng& r = ex.rng;
  do {
    for (int k = 0; k < 6; k++) {
      Case c;
      bool norm = r.coin(), bytes = r.one_in(4);
      c.s("truncation", r.one_in(4) ? j_truncation(r) : "").s("padding", r.one_in(4) ? j_padding(r) : "");
      c.s("added_tokens", r.coin() ? j_added(r) : "").s("normalizer", norm ? j_normalizer(r) : "");
      c.s("pre_tokenizer", !bytes && r.one_in(4) ? "" : bytes ? "{\"type\":\"ByteLevel\",\"add_prefix_space\":" + b2s(r.coin()) + ",\"trim_offsets\":true,\"use_regex\":true}" : j_pretok(r, 1, r.one_in(4)));
      c.s("model", bytes ? j_bpe_bytes(r) : r.coin() ? j_wordpiece(r) : j_bpe_chars(r));
      c.s("post_processor", r.one_in(3) ? (bytes && r.coin() ? "{\"type\":\"ByteLevel\",\"add_prefix_space\":true,\"trim_offsets\":true}" : j_post(r, 0, true)) : "").s("decoder", "");
      for (int j = 0; j < 6; j++) {
        c.s("text", e2e_text(r)).i("add_special_tokens", r.coin());
        try {
          ex.run(c);
        } catch (const std::invalid_argument&) {
        }
      }
    }
  } while (ex.more());
}
Err check_offsets_guarded(const Case& c) {
  try {
    return check_offsets(c);
  } catch (const std::invalid_argument&) {  // stride too large for the room left by the special tokens
    g_trivial = true;
    return {};
  }
}

// ---- round trip ----
Err check_round(const Case& c) {
  Tokenizer& t = tokenizer(c);
  Str text = c.S("text");
  if (c.has("long")) {  // only the model and the decoder: pre-tokenization takes too long on such a word
    text = Str(c.I("long"), 'b') + text;
    PreTokenizedString p(NormalizedString(L""));
    p.splits = {Split(text, {0, (int)text.size()})};
    p = part<Model>(c, "model", with_model)->tokenize(p);
    Strs toks;
    for (auto& x : p.splits[0].tokens) toks.push_back(x.value);
    toks = ByteLevelDecoder().decode_chain(toks);
    EXPECT(toks.size() == 1 && toks[0] == text, c.I("long") << " b followed by ab become another text");
    return {};
  }
  for (int k = 0; k < 2; k++) {
    Encoding e = t.encode(wide(text), false);
    Str got = t.decode(e.ids, false);
    EXPECT(got == text, (k ? "again: " : "") << esc(text) << " becomes " << esc(got) << ", tokens " << show(e.tokens));
  }
  g_trivial = text.empty();
  return {};
}
void explore_round(Explorer& ex) {
  Rng& r = ex.rng;
  bool first = true;
  do {
    for (int k = 0; k < 4; k++) {
      Case c;
      c.s("model", j_bpe_bytes(r)).s("decoder", "{\"type\":\"ByteLevel\"}").s("added_tokens", r.coin() ? j_added(r, true) : "");
      c.s("pre_tokenizer", "{\"type\":\"ByteLevel\",\"add_prefix_space\":false,\"trim_offsets\":true,\"use_regex\":" + b2s(r.coin()) + "}");
      for (int j = 0; j < 12; j++) {
        c.s("text", r.coin() ? e2e_text(r) : random_text(r, 14));
        ex.run(c);
      }
    }
    if (first) {  // one word of very many symbols
      Strs v;
      for (int b = 0; b < 256; b++) v.push_back(u8(byte_char(b)));
      v.push_back("ab");
      first = false;
      ex.run(Case().s("model", j_bpe(v, {"a b"}, r, "")).s("decoder", "{\"type\":\"ByteLevel\"}").s("added_tokens", "").s("pre_tokenizer", "{\"type\":\"ByteLevel\",\"add_prefix_space\":false,\"trim_offsets\":true,\"use_regex\":true}").s("text", "ab").i("long", 70000));
    }
  } while (ex.more());
}

// ---- sequences ----
Str show_splits(const PreTokenizedString& p) {
  Str o = esc(narrow(p.normalized.normalized)) + " ";
  for (auto& s : p.splits) {
    o += esc(s.normalized) + show(std::vector<PII>{s.offsets});
    for (auto& t : s.tokens) o += "=" + std::to_string(t.id) + esc(t.value) + show(std::vector<PII>{t.offsets});
    o += " ";
  }
  return o + show(p.normalized.offsets) + show(p.normalized.offset_ranges);
}
Str show_norm(const NormalizedString& n) { return esc(narrow(n.normalized)) + show(n.offsets) + show(n.offset_ranges); }

struct MarkNormalizer : Normalizer {  // appends a letter: order and multiplicity become visible
  wchar_t c;
  explicit MarkNormalizer(wchar_t c) : c(c) {}
  NormalizedString normalize(NormalizedString n) const override { return NormalizedString(n.normalized + c); }
};
struct MarkPre : PreTokenizer {
  Str c;
  explicit MarkPre(Str c) : c(c) {}
  PreTokenizedString pre_tokenize(PreTokenizedString p) const override {
    p.splits.push_back(Split(c + std::to_string(p.splits.size()), {0, 0}));
    return p;
  }
};
struct MarkPost : PostProcessor {
  int c;
  explicit MarkPost(int c) : c(c) {}
  Encoding process(Encoding e, bool add) const override {
    e.ids.push_back(c * 100 + (int)e.ids.size() * 2 + add);
    return e;
  }
  int added_tokens() const override { return c; }
};
struct MarkDecoder : Decoder {
  Str c;
  explicit MarkDecoder(Str c) : c(c) {}
  Strs decode_chain(Strs t) const override {
    t.push_back(c + std::to_string(t.size()));
    return t;
  }
};
Err check_sequence(const Case& c) {
  Strs l = c.L("members");
  Str kind = c.S("kind");
  g_trivial = l.empty();
  if (kind == "normalizer") {
    std::vector<std::unique_ptr<Normalizer>> seq;
    NormalizedString want(wide(c.S("text"))), in = want;
    for (auto& m : l) {
      auto make = [&]() -> std::unique_ptr<Normalizer> {
        if (m[0] != '{') return std::make_unique<MarkNormalizer>((wchar_t)m[0]);
        Json j(m);
        return with_normalizer(j.object());
      };
      seq.push_back(make());
      want = make()->normalize(want);
    }
    NormalizedString got = SequenceNormalizer(std::move(seq)).normalize(in);
    EXPECT(show_norm(want) == show_norm(got), "expected " << show_norm(want) << " got " << show_norm(got));
  } else if (kind == "pre_tokenizer") {
    std::vector<std::unique_ptr<PreTokenizer>> seq;
    PreTokenizedString want{NormalizedString(wide(c.S("text")))}, in = want;
    for (auto& m : l) {
      auto make = [&]() -> std::unique_ptr<PreTokenizer> {
        if (m[0] != '{') return std::make_unique<MarkPre>(m);
        Json j(m);
        return with_pre_tokenizer(j.object());
      };
      seq.push_back(make());
      want = make()->pre_tokenize(want);
    }
    PreTokenizedString got = SequencePreTokenizer(std::move(seq)).pre_tokenize(in);
    EXPECT(show_splits(want) == show_splits(got), "expected " << show_splits(want) << " got " << show_splits(got));
  } else if (kind == "post_processor") {
    std::vector<std::unique_ptr<PostProcessor>> seq;
    Encoding want = make_encoding(c.I("length"), 2), in = want;
    bool add = c.I("add_special_tokens");
    int sum = 0;
    for (auto& m : l) {
      auto make = [&]() -> std::unique_ptr<PostProcessor> {
        if (m[0] != '{') return std::make_unique<MarkPost>(m[0]);
        Json j(m);
        return with_post_processor(j.object());
      };
      seq.push_back(make());
      sum += make()->added_tokens();
      want = make()->process(want, add);
    }
    SequenceProcessing sp(std::move(seq));
    const PostProcessor& base = sp;
    EXPECT(base.added_tokens() == sum, "announces " << base.added_tokens() << " special tokens instead of " << sum);
    Encoding got = sp.process(in, add);
    return same_encoding(want, got, "sequence");
  } else {
    std::vector<std::unique_ptr<Decoder>> seq;
    Strs want = c.L("tokens"), in = want;
    for (auto& m : l) {
      auto make = [&]() -> std::unique_ptr<Decoder> {
        if (m[0] != '{') return std::make_unique<MarkDecoder>(m);
        Json j(m);
        return with_decoder(j.object());
      };
      seq.push_back(make());
      want = make()->decode_chain(want);
    }
    Strs got = SequenceDecoder(std::move(seq)).decode_chain(in);
    EXPECT(want == got, "expected " << show(want) << " got " << show(got));
  }
  return {};
}
Str j_decoder(Rng& r) { return r.coin() ? "{\"type\":\"ByteLevel\"}" : "{\"type\":\"WordPiece\",\"prefix\":\"##\",\"cleanup\":" + b2s(r.coin()) + "}"; }
void explore_sequence(Explorer& ex) {
  Rng& r = ex.rng;
  Strs kinds = {"normalizer", "pre_tokenizer", "post_processor", "decoder"};
  for (auto& k : kinds)
    for (int len = 0; len <= 4; len++)
      for (int code = 0; code < (1 << len); code++) {
        Strs l;
        for (int i = 0; i < len; i++) l.push_back(code >> i & 1 ? "q" : "w");
        ex.run(Case().s("kind", k).l("members", l).s("text", "ab c").l("tokens", {"a", "##b"}).i("length", 2).i("add_special_tokens", code & 1));
      }
  do {
    for (int k = 0; k < 20; k++) {
      Str kind = r.pick(kinds);
      Strs l;
      for (int i = r(5); i > 0; i--)
        l.push_back(r.one_in(4) ? Str(1, (char)('a' + r(26))) : kind == "normalizer" ? j_normalizer(r, 0) : kind == "pre_tokenizer" ? j_pretok(r, 0, i == 1) : kind == "post_processor" ? j_post(r, 0) : j_decoder(r));
      if (kind == "post_processor")  // the marker breaks the parallel arrays, which real members need
        for (auto& m : l)
          if (m[0] != '{') m = j_post(r, 0, true);
      if (kind == "pre_tokenizer")
        for (auto& m : l)
          if (m[0] != '{') m = "{\"type\":\"BertPreTokenizer\"}";
      Strs toks;
      for (int i = r(5); i > 0; i--) toks.push_back(r.pick(Strs{"a", "##b", " .", "do not", "<s>", "\xc4\xa0x"}));
      ex.run(Case().s("kind", kind).l("members", l).s("text", e2e_text(r)).l("tokens", toks).i("length", r(5)).i("add_special_tokens", r.coin()));
    }
  } while (ex.more());
}

// ---- configurations ----
// field: "key=value" with value J: JSON text; "null" allowed
struct Fields {
  std::map<Str, Str> v;
  int order = 0;  // in which the members are written
  bool null(const Str& k) const { return v.at(k) == "null"; }
  Str s(const Str& k) const { return null(k) ? "" : v.at(k).substr(1); }
  int i(const Str& k) const { return null(k) ? 0 : atoi(v.at(k).c_str() + 1); }
  bool b(const Str& k) const { return !null(k) && v.at(k) == "b1"; }
};
Fields fields(const Case& c) {
  Fields f;
  for (auto& e : c.L("fields")) {
    size_t p = e.find('=');
    f.v[e.substr(0, p)] = e.substr(p + 1);
  }
  if (c.has("order")) f.order = c.I("order");
  return f;
}
Str jval(const Str& v) { return v == "null" ? v : v[0] == 's' ? jstr(v.substr(1)) : v[0] == 'b' ? b2s(v[1] == '1') : v.substr(1); }
Str jobj(const Str& type, const Fields& f, const Strs& extra = {}) {
  Strs m;
  if (!type.empty()) m.push_back("\"type\":" + jstr(type));
  for (auto& e : f.v) m.push_back(jstr(e.first) + ":" + jval(e.second));
  for (auto& e : extra) m.push_back(e);
  if (f.order) {
    std::mt19937 g(f.order);
    for (size_t k = m.size(); k > 1; k--) std::swap(m[k - 1], m[g() % k]);
  }
  Str o = "{";
  for (size_t k = 0; k < m.size(); k++) o += (k ? "," : "") + m[k];
  return o + "}";
}
const Strs kTexts = {"", "a", "Hello, W\xc3\xb6rld  x", " ab ab\tab ", "e\xcc\x81 \xe4\xb8\x80\xe4\xba\x8c.", "abab aab", "A\xc3\x89!? \xef\xac\x81", "1 2a_b"};

template <class A, class B>
Err compare_model(A& want, B& got, const Strs& vocab) {
  EXPECT(want.get_vocab_size() == got.get_vocab_size(), "vocabulary sizes " << want.get_vocab_size() << " and " << got.get_vocab_size());
  for (int i = -1; i < 40; i++) EXPECT(want.id_to_token(i) == got.id_to_token(i), "id_to_token(" << i << ")");
  for (auto& t : vocab) {
    EXPECT(want.token_to_id(t) == got.token_to_id(t), "token_to_id(" << esc(t) << ")");
    if (auto id = want.token_to_id(t)) EXPECT(want.id_to_token(*id) == got.id_to_token(*id), "id_to_token(" << *id << ")");
  }
  for (auto& t : {"a", "b", "##a", "ab", "[UNK]", "<0x61>", ""}) EXPECT(want.token_to_id(t) == got.token_to_id(t), "token_to_id(" << t << ")");
  for (auto& t : kTexts)
    for (int cut = 0; cut < 3; cut++) {
      Str s = t.substr(0, t.size() - std::min<size_t>(cut, t.size()));
      try {
        if (narrow(convert_from_string(s)) != s) continue;
      } catch (const std::exception&) {
        continue;
      }
      PreTokenizedString p{NormalizedString(wide(s))};
      Str a = show_splits(want.tokenize(p)), b = show_splits(got.tokenize(p));
      EXPECT(a == b, "tokenizing " << esc(s) << ": expected " << a << " got " << b);
    }
  return {};
}

// the whole tokenizer: each component is the one of its member
Err check_tokenizer(const Case& c) {
  Err x = check_order(c);
  if (x) return x;
  Stages s = stages(c);
  std::unique_ptr<Decoder> decoder = part(c, "decoder", with_decoder);
  std::vector<int> ids;
  for (int i = 0; i < 14; i++) ids.push_back((c.I("first_id") + i * 3) % 40);
  for (int skip = 0; skip < 2; skip++) {
    Strs toks;
    Str want;
    for (int id : ids) {
      std::optional<Str> t;
      if (s.added) t = s.added->id_to_token(id);
      if (!t && s.model) t = s.model->id_to_token(id);
      if (t && !(skip && s.added && s.added->is_special_token(*t))) toks.push_back(*t);
    }
    if (decoder) toks = decoder->decode_chain(toks);
    for (auto& t : toks) want += t;
    Str got = tokenizer(c).decode(ids, skip);
    EXPECT(want == got, "decode: expected " << esc(want) << " got " << esc(got));
  }
  if (!c.I("file")) return {};
  char dir[] = "/tmp/verif_cfg_XXXXXX";
  EXPECT(mkdtemp(dir), "scratch directory");
  Str file = Str(dir) + "/tokenizer.json";
  std::ofstream(file) << config(c);
  std::optional<Encoding> a, b;
  Str error;
  try {
    Tokenizer t(dir, c.I("file") == 2 ? "{}" : "");
    b = t.encode(wide(c.S("text")), c.I("add_special_tokens"));
  } catch (const std::exception& e) {
    error = e.what();
  }
  unlink(file.c_str());
  rmdir(dir);
  try {
    a = tokenizer(c).encode(wide(c.S("text")), c.I("add_special_tokens"));
  } catch (const std::exception&) {
  }
  EXPECT(a.has_value() == b.has_value(), "loaded from a file: " << error);
  if (a) return same_encoding(*a, *b, "loaded from a file");
  return {};
}
Err check_config(const Case& c) {
  Str kind = c.S("kind");
  Fields f = fields(c);
  if (kind == "Tokenizer") return check_tokenizer(c);
  if (kind == "Truncation") {
    Json j(jobj("", f));
    auto got = with_truncation(j.object());
    EXPECT(got, "no component");
    Truncation want(f.s("direction"), f.s("strategy"), f.i("max_length"), f.i("stride"));
    for (int n : {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 700}) {
      Encoding e = make_encoding(n, 1);
      std::optional<Encoding> a, b;
      try {
        a = want.truncate_encoding(e);
      } catch (const std::invalid_argument&) {
      }
      try {
        b = got->truncate_encoding(e);
      } catch (const std::invalid_argument&) {
      }
      EXPECT(a.has_value() == b.has_value(), "rejected by one only");
      if (a) {
        Err x = same_encoding(*a, *b, "truncating " + std::to_string(n));
        if (x) return x;
      }
    }
    return {};
  }
  if (kind == "Padding") {
    Fields g = f;
    Str strategy = f.s("strategy");
    int fixed = -1;
    Strs extra;
    if (strategy.substr(0, 5) == "Fixed") {
      fixed = atoi(strategy.c_str() + 5);
      strategy = "Fixed";
      g.v.erase("strategy");
      extra.push_back("\"strategy\":{\"Fixed\":" + std::to_string(fixed) + "}");
    }
    Json j(jobj("", g, extra));
    auto got = with_padding(j.object());
    EXPECT(got, "no component");
    Padding want(f.s("direction"), strategy, fixed, f.i("pad_id"), f.i("pad_type_id"), f.s("pad_token"), f.i("pad_to_multiple_of"));
    for (int n = 0; n < (fixed > 1000 ? 1 : 12); n++) {
      Err x = same_encoding(want.pad_encoding(make_encoding(n, 1)), got->pad_encoding(make_encoding(n, 1)), "padding " + std::to_string(n));
      if (x) return x;
    }
    return {};
  }
  if (kind == "WordPiece" || kind == "BPE") {
    Strs v = c.L("vocab"), m = c.L("merges");
    std::unordered_map<Str, int> vocab;
    Str jv = "{";
    for (size_t i = 0; i < v.size(); i++)
      if (!vocab.count(v[i])) {
        int id = c.I("base") + (int)i * 2 + (i == 3 && c.has("far") ? c.I("far") : 0);
        vocab[v[i]] = id;
        jv += Str(jv.size() > 1 ? "," : "") + jstr(v[i]) + ":" + std::to_string(id);
      }
    jv += "}";
    Strs extra = {"\"vocab\":" + jv};
    if (kind == "WordPiece") {
      Json j(jobj(kind, f, extra));
      auto got = with_model(j.object());
      EXPECT(got, "no component");
      WordPiece want(vocab, f.s("unk_token"), f.i("max_input_chars_per_word"), f.s("continuing_subword_prefix"));
      return compare_model(want, *got, v);
    }
    extra.push_back("\"merges\":" + (c.I("null_merges") ? Str("null") : jlist(m, jstr)));
    Json j(jobj(kind, f, extra));
    auto got = with_model(j.object());
    EXPECT(got, "no component");
    BPE want(vocab, c.I("null_merges") ? Strs{} : m, 0.0f, f.s("unk_token"), f.s("continuing_subword_prefix"), f.s("end_of_word_suffix"), f.b("fuse_unk"), f.b("byte_fallback"), f.b("ignore_merges"));
    return compare_model(want, *got, v);
  }
  if (kind == "Template") {
    Strs sp;
    std::vector<std::pair<Str, Piece>> single, pair;
    auto pieces = [&](const Strs& l, std::vector<std::pair<Str, Piece>>& out) {
      return jlist(l, [&](const Str& p) {
        size_t a = p.find(':'), b = p.rfind(':');
        Str t = p[0] == 'S' ? "Sequence" : "SpecialToken", id = p.substr(a + 1, b - a - 1);
        out.push_back({t, Piece(id, atoi(p.c_str() + b + 1))});
        return "{" + jstr(t) + ":{\"id\":" + jstr(id) + ",\"type_id\":" + p.substr(b + 1) + "}}";
      });
    };
    Str js = pieces(c.L("single"), single), jp = pieces(c.L("pair"), pair), jt = "{";
    std::vector<SpecialToken> specials;
    int k = 0;
    for (auto& s : c.L("specials")) {
      size_t a = s.find(';');
      std::vector<int> ids;
      Strs toks;
      Str ji, jk;
      for (int i = 0; i < atoi(s.c_str() + a + 1); i++) {
        ids.push_back(100 + k * 7 + i + (c.has("far") ? c.I("far") : 0));
        toks.push_back(s.substr(0, a) + std::to_string(i));
        ji += (i ? "," : "") + std::to_string(ids.back());
        jk += (i ? "," : "") + jstr(toks.back());
      }
      specials.push_back(SpecialToken(s.substr(0, a), ids, toks));
      jt += Str(k ? "," : "") + jstr(s.substr(0, a)) + ":{\"id\":" + jstr(s.substr(0, a)) + ",\"ids\":[" + ji + "],\"tokens\":[" + jk + "]}";
      k++;
    }
    Json j("{\"type\":\"TemplateProcessing\",\"single\":" + js + ",\"pair\":" + jp + ",\"special_tokens\":" + jt + "}}");
    auto got = with_post_processor(j.object());
    EXPECT(got, "no component");
    TemplateProcessing want(single, pair, specials);
    for (int n = 0; n < 3; n++)
      for (int add = 0; add < 2; add++) {
        Encoding e = make_encoding(n, 1);
        e.overflowing.push_back(make_encoding(2, 3));
        Err x = same_encoding(want.process(e, add), got->process(e, add), "processing");
        if (x) return x;
      }
    return {};
  }
  if (kind == "ByteLevelProcessing") {
    Json j(jobj("ByteLevel", f));
    auto got = with_post_processor(j.object());
    EXPECT(got, "no component");
    ByteLevelProcessing want(f.b("add_prefix_space"), f.b("trim_offsets"));
    Encoding e = make_encoding(4, 1);
    e.tokens = {"\xc4\xa0" "a", "b\xc4\xa0", "\xc4\xa0\xc4\xa0", "\xc4\xa0" "c"};
    e.offsets = {{0, 2}, {2, 4}, {4, 6}, {0, 8}};
    return same_encoding(want.process(e, true), got->process(e, true), "processing");
  }
  auto normal = [&](const Str& json, const Normalizer* want) -> Err {
    Json j(json);
    auto got = with_normalizer(j.object());
    EXPECT((got != nullptr) == (want != nullptr), json << (got ? " yields a component" : " yields none"));
    if (want)
      for (auto& t : kTexts) {
        NormalizedString in(wide(t));
        Str a = show_norm(want->normalize(in)), b = show_norm(got->normalize(in));
        EXPECT(a == b, json << " on " << esc(t) << ": expected " << a << " got " << b);
      }
    return {};
  };
  if (kind == "BertNormalizer") {
    BertNormalizer w(f.b("clean_text"), f.b("handle_chinese_chars"), f.b("strip_accents"), f.b("lowercase"));
    return normal(jobj(kind, f), &w);
  }
  if (kind == "Strip") {
    Strip w(f.b("strip_left"), f.b("strip_right"));
    return normal(jobj(kind, f), &w);
  }
  if (kind == "Prepend") {
    Prepend w(f.s("prepend"));
    return normal(jobj(kind, f), &w);
  }
  if (kind == "Replace") {
    Replace w(f.s("pattern"), f.s("content"));
    Fields g = f;
    g.v.erase("pattern");
    return normal(jobj(kind, g, {"\"pattern\":{\"String\":" + jval(f.v["pattern"]) + "}"}), &w);
  }
  if (kind == "NormalizerType") {
    Str t = c.S("type");
    std::unique_ptr<Normalizer> w;
    if (t == "NFC") w = std::make_unique<NFC>();
    if (t == "NFD") w = std::make_unique<NFD>();
    if (t == "NFKC") w = std::make_unique<NFKC>();
    if (t == "NFKD") w = std::make_unique<NFKD>();
    if (t == "StripAccents") w = std::make_unique<StripAccents>();
    return normal("{\"type\":" + jstr(t) + "}", w.get());
  }
  if (kind == "Sequence") {  // members that are not supported are left out
    Strs l = c.L("members");
    Str part = c.S("part"), list = jlist(l, [](const Str& s) { return s; });
    if (part == "normalizer") {
      std::vector<std::unique_ptr<Normalizer>> w;
      for (auto& m : l) {
        Json j(m);
        auto x = with_normalizer(j.object());
        if (x) w.push_back(std::move(x));
      }
      SequenceNormalizer want(std::move(w));
      return normal("{\"type\":\"Sequence\",\"normalizers\":" + list + "}", &want);
    }
    if (part == "pre_tokenizer") {
      std::vector<std::unique_ptr<PreTokenizer>> w;
      for (auto& m : l) {
        Json j(m);
        auto x = with_pre_tokenizer(j.object());
        if (x) w.push_back(std::move(x));
      }
      SequencePreTokenizer want(std::move(w));
      Json j("{\"type\":\"Sequence\",\"pretokenizers\":" + list + "}");
      auto got = with_pre_tokenizer(j.object());
      EXPECT(got, "no component");
      for (auto& t : kTexts) {
        PreTokenizedString p{NormalizedString(wide(t))};
        Str a = show_splits(want.pre_tokenize(p)), b = show_splits(got->pre_tokenize(p));
        EXPECT(a == b, "on " << esc(t) << ": expected " << a << " got " << b);
      }
      return {};
    }
    if (part == "post_processor") {
      std::vector<std::unique_ptr<PostProcessor>> w;
      for (auto& m : l) {
        Json j(m);
        auto x = with_post_processor(j.object());
        if (x) w.push_back(std::move(x));
      }
      SequenceProcessing want(std::move(w));
      Json j("{\"type\":\"Sequence\",\"processors\":" + list + "}");
      auto got = with_post_processor(j.object());
      EXPECT(got, "no component");
      return same_encoding(want.process(make_encoding(3, 1), true), got->process(make_encoding(3, 1), true), "processing");
    }
    std::vector<std::unique_ptr<Decoder>> w;
    for (auto& m : l) {
      Json j(m);
      auto x = with_decoder(j.object());
      if (x) w.push_back(std::move(x));
    }
    SequenceDecoder want(std::move(w));
    Json j("{\"type\":\"Sequence\",\"decoders\":" + list + "}");
    auto got = with_decoder(j.object());
    EXPECT(got, "no component");
    Strs t = {"a", "##b", " .", "\xc4\xa0x"};
    EXPECT(want.decode_chain(t) == got->decode_chain(t), "decoding: expected " << show(want.decode_chain(t)) << " got " << show(got->decode_chain(t)));
    return {};
  }
  auto pre = [&](const Str& json, const PreTokenizer* want) -> Err {
    Json j(json);
    auto got = with_pre_tokenizer(j.object());
    EXPECT((got != nullptr) == (want != nullptr), json << (got ? " yields a component" : " yields none"));
    if (want)
      for (auto& t : kTexts) {
        PreTokenizedString p{NormalizedString(wide(t))};
        Str a = show_splits(want->pre_tokenize(p)), b = show_splits(got->pre_tokenize(p));
        EXPECT(a == b, json << " on " << esc(t) << ": expected " << a << " got " << b);
      }
    return {};
  };
  if (kind == "Split") {
    SplitPreTokenizer w(f.s("pattern"), f.s("behavior"), f.b("invert"));
    Fields g = f;
    g.v.erase("pattern");
    return pre(jobj(kind, g, {"\"pattern\":{\"Regex\":" + jval(f.v["pattern"]) + "}"}), &w);
  }
  if (kind == "ByteLevelPre") {
    ByteLevelPreTokenizer w(f.b("add_prefix_space"), f.b("use_regex"));
    return pre(jobj("ByteLevel", f), &w);
  }
  if (kind == "PreType") {
    Str t = c.S("type");
    std::unique_ptr<PreTokenizer> w;
    if (t == "BertPreTokenizer") w = std::make_unique<BertPreTokenizer>();
    return pre("{\"type\":" + jstr(t) + "}", w.get());
  }
  if (kind == "WordPieceDecoder") {
    Json j(jobj("WordPiece", f));
    auto got = with_decoder(j.object());
    EXPECT(got, "no component");
    WordPieceDecoder want(f.s("prefix"), f.b("cleanup"));
    Strs t = {"a", "##b", "b##", " .", "x do not", "@@y"};
    EXPECT(want.decode_chain(t) == got->decode_chain(t), "decoding: expected " << show(want.decode_chain(t)) << " got " << show(got->decode_chain(t)));
    return {};
  }
  if (kind == "OtherType") {  // unsupported models, post-processors, decoders
    Str t = c.S("type");
    Json a("{\"type\":" + jstr(t) + ",\"vocab\":{}}"), b("{\"type\":" + jstr(t) + "}"), d("{\"type\":" + jstr(t) + "}");
    EXPECT(!with_model(a.object()), "model " << t);
    EXPECT(!with_post_processor(b.object()), "post-processor " << t);
    EXPECT(!with_decoder(d.object()), "decoder " << t);
    return {};
  }
  if (kind == "Added") {
    Str js = "[";
    std::vector<AddedToken> want;
    for (auto& e : c.L("tokens")) {
      size_t bar = e.find('|');
      Str fl = e.substr(0, bar);
      auto h = [&](char x) { return fl.find(x) != Str::npos; };
      int id = want.size() * 3 + 1 + (want.size() == 1 && c.has("far") ? c.I("far") : 0);
      want.push_back(AddedToken(id, e.substr(bar + 1), h('w'), h('l'), h('r'), h('n'), h('s')));
      bool all = !h('-');  // '-': leave out the members that have their default value
      js += Str(want.size() > 1 ? "," : "") + "{\"id\":" + std::to_string(id) + ",\"content\":" + jstr(e.substr(bar + 1));
      if (all || h('w')) js += ",\"single_word\":" + b2s(h('w'));
      if (all || h('l')) js += ",\"lstrip\":" + b2s(h('l'));
      if (all || h('r')) js += ",\"rstrip\":" + b2s(h('r'));
      if (all || !h('n')) js += ",\"normalized\":" + b2s(h('n'));
      if (all || h('s')) js += ",\"special\":" + b2s(h('s'));
      js += "}";
    }
    Json j(js + "]");
    auto got = with_added_vocabulary(j.array());
    EXPECT(got && got->added_tokens.size() == want.size(), "number of added tokens");
    for (size_t i = 0; i < want.size(); i++) {
      auto &a = want[i], &b = got->added_tokens[i];
      EXPECT(a.id == b.id && a.content == b.content && a.single_word == b.single_word && a.lstrip == b.lstrip && a.rstrip == b.rstrip && a.normalized == b.normalized && a.special == b.special, "added token " << i << " differs");
    }
    return {};
  }
  FAIL("unknown kind");
}
void explore_config(Explorer& ex) {
  Rng& r = ex.rng;
  Strs kinds = {"Truncation", "Padding", "WordPiece", "BPE", "Template", "ByteLevelProcessing", "BertNormalizer", "Strip", "Prepend", "Replace", "NormalizerType", "Sequence", "Split", "ByteLevelPre", "PreType", "WordPieceDecoder", "OtherType", "Added", "Tokenizer"};
  auto S = [&](const Strs& v) { return r.one_in(8) ? Str("null") : "s" + r.pick(v); };
  auto B = [&] { return r.one_in(5) ? Str("null") : r.coin() ? Str("b1") : Str("b0"); };
  auto N = [&](int n) { return r.one_in(6) ? Str("null") : "i" + std::to_string(r(n)); };
  // any 32-bit number, any text
  auto L = [&](int n) { return r.one_in(4) ? "i" + r.pick(Strs{"255", "256", "32768", "65535", "65536", "1000000", "2147483647", "-1"}) : N(n); };
  auto W = [&](const Strs& v) { return r.one_in(4) ? "s" + random_text(r, 10) : S(v); };
  do {
    for (auto& k : kinds) {
      Case c;
      c.s("kind", k).i("order", r.coin() ? 0 : 1 + r(1000));
      Strs f;
      auto add = [&](const Str& key, const Str& v) { f.push_back(key + "=" + v); };
      if (k == "Truncation") {
        add("direction", S({"Right", "Left"}));
        add("strategy", S({"LongestFirst", "OnlyFirst", "OnlySecond"}));
        bool big = r.one_in(20);
        add("max_length", big ? r.pick(Strs{"i500", "i513", "i600", "i1000000", "i2147483647"}) : N(9));
        add("stride", big ? r.pick(Strs{"i0", "i300", "i257"}) : N(4));
      } else if (k == "Padding") {
        add("direction", S({"Right", "Left"}));
        add("strategy", "s" + (r.one_in(300) ? Str("Fixed70000") : r.pick(Strs{"BatchLongest", "Fixed3", "Fixed7", "Fixed0", "Fixed15", "Fixed300"})));
        add("pad_id", L(40));
        add("pad_type_id", L(5));
        add("pad_token", W({"[PAD]", "<pad>"}));
        add("pad_to_multiple_of", r.one_in(20) ? "i" + std::to_string(r(600)) : N(9));
      } else if (k == "WordPiece") {
        add("unk_token", S({"[UNK]", "a"}));
        add("max_input_chars_per_word", r.coin() ? "i100" : N(9));
        add("continuing_subword_prefix", S({"##", "_"}));
      } else if (k == "BPE") {
        add("dropout", "null");
        add("unk_token", S({"<unk>", "a"}));
        add("continuing_subword_prefix", r.coin() ? "null" : S({"##"}));
        add("end_of_word_suffix", r.coin() ? "null" : S({"</w>"}));
        add("fuse_unk", B());
        add("byte_fallback", B());
        add("ignore_merges", B());
      } else if (k == "ByteLevelProcessing") {
        add("add_prefix_space", B());
        add("trim_offsets", B());
      } else if (k == "BertNormalizer") {
        add("clean_text", B());
        add("handle_chinese_chars", B());
        add("strip_accents", B());
        add("lowercase", B());
      } else if (k == "Strip") {
        add("strip_left", B());
        add("strip_right", B());
      } else if (k == "Prepend") {
        add("prepend", W({"_", "ab"}));
      } else if (k == "Replace") {
        add("pattern", "s" + r.pick(Strs{"a", "ab", " ", "ab ", "b", "", u8(char32_t(0x4E00)), ". "}));
        add("content", W({"_", "", "ab"}));
      } else if (k == "Split") {
        add("pattern", "s" + r.pick(Strs{"\\s+", "a", "[ab]"}));
        add("behavior", S({"Isolated", "Removed"}));
        add("invert", B());
      } else if (k == "ByteLevelPre") {
        add("add_prefix_space", B());
        add("use_regex", B());
      } else if (k == "WordPieceDecoder") {
        add("prefix", W({"##", "@@"}));
        add("cleanup", B());
      }
      c.l("fields", f);
      if (k == "WordPiece" || k == "BPE") {
        Strs v, m, units = {"a", "b", "H", "e", "l", " ", "\xc3\xb6"}, pool = units;
        for (auto& u : units)
          if (!r.one_in(4)) {
            v.push_back(u);
            v.push_back("##" + u);
          }
        v.push_back("[UNK]");
        v.push_back("<unk>");
        bool marked = c.S("fields").find("##") != Str::npos;
        for (int i = r(9); i > 0; i--) {
          Str x = r.pick(pool), y = r.pick(pool);
          if (x == " " || y == " ") continue;
          m.push_back(x + " " + (marked ? "##" + y : y));
          v.push_back(x + y);
          pool.push_back(x + y);
        }
        if (r.one_in(4)) v.push_back("<0xC3>");
        if (r.one_in(4)) v.push_back("a</w>");
        c.l("vocab", v).l("merges", m).i("base", r(3)).i("far", r.one_in(3) ? 1 << (8 + r(22)) : 0).i("null_merges", r.one_in(8));
      }
      if (k == "Template") {
        Strs names = {"[CLS]", "[SEP]", "A", "B"}, a, b, s;
        auto piece = [&] { return (r.coin() ? "S:" + Str(r.coin() ? "A" : "B") : "T:" + r.pick(names)) + ":" + std::to_string(r(4)); };
        for (int i = r(5); i > 0; i--) a.push_back(piece());
        for (int i = r(4); i > 0; i--) b.push_back(piece());
        std::set<Str> have;
        for (int i = r(4); i > 0; i--) {
          Str n = r.pick(names);
          if (have.insert(n).second) s.push_back(n + ";" + std::to_string(r(3)));
        }
        c.l("single", a).l("pair", b).l("specials", s).i("far", r.one_in(3) ? 1 << (8 + r(22)) : 0);
      }
      if (k == "NormalizerType") c.s("type", r.pick(Strs{"NFC", "NFD", "NFKC", "NFKD", "StripAccents", "Lowercase", "Precompiled", "Nmt", "nfc", ""}));
      if (k == "PreType") c.s("type", r.pick(Strs{"BertPreTokenizer", "Whitespace", "Digits", "Metaspace", "Punctuation", "Nope", "WhitespaceSplit", "CharDelimiterSplit", "UnicodeScripts"}));
      if (k == "OtherType") c.s("type", r.pick(Strs{"Unigram", "WordLevel", "CTC", "Metaspace", "BPEDecoder", "BertProcessing", "RobertaProcessing", "Nope"}));
      if (k == "Sequence") {
        Str part = r.pick(Strs{"normalizer", "pre_tokenizer", "post_processor", "decoder"});
        Strs l;
        for (int i = r(5); i > 0; i--)
          l.push_back(part == "normalizer" ? (r.one_in(4) ? "{\"type\":\"Lowercase\"}" : j_normalizer(r, 0)) : part == "pre_tokenizer" ? (r.one_in(4) ? "{\"type\":\"Whitespace\"}" : j_pretok(r, 0, i == 1)) : part == "post_processor" ? (r.one_in(4) ? "{\"type\":\"BertProcessing\"}" : j_post(r, 0)) : (r.one_in(4) ? "{\"type\":\"CTC\"}" : j_decoder(r)));
        c.s("part", part).l("members", l);
      }
      if (k == "Tokenizer") {
        random_config(r, c, r.coin());
        if (r.one_in(6)) c.s("model", r.coin() ? "{\"type\":\"WordLevel\",\"vocab\":{\"a\":0,\"b\":3},\"unk_token\":\"a\"}" : "{\"type\":\"Nope\",\"vocab\":null}");
        c.s("decoder", r.one_in(3) ? "" : j_decoder(r)).i("first_id", r(40)).i("file", r.one_in(8) ? 1 + r(2) : 0);
      }
      if (k == "Added") {
        Strs t;
        for (int i = r(5); i > 0; i--) {
          Str fl;
          for (char x : Str("wlrns-"))
            if (r.coin()) fl += x;
          t.push_back(fl + "|" + (r.one_in(5) ? random_text(r, 10) : r.pick(Strs{"<s>", "a b", "\xc3\xa9", "\"q\\", ""})));
        }
        c.l("tokens", t).i("far", r.one_in(3) ? 1 << (8 + r(22)) : 0);
      }
      ex.run(c);
    }
  } while (ex.more());
}

Reg r4({"C04", "random configurations of all components, texts and encodings; trivial: truncation rejects its parameters", explore_parallel, check_parallel});
Reg r22({"C22", "random pipelines and texts; trivial: no token", explore_offsets, check_offsets_guarded});
Reg r23({"C23", "random configurations with any subset of components against the stages run by hand; trivial: no token", explore_order, check_order});
Reg r24({"C24", "all short sequences of two marker components, then random sequences of real ones; trivial: the empty sequence", explore_sequence, check_sequence});
Reg r25({"C25", "random field values (nulls included) of every supported component against the component constructed directly", explore_config, check_config});
Reg r27({"C27", "random byte-level BPE tokenizers and texts; trivial: the empty text", explore_round, check_round});

}  // namespace
