// C10: WordPiece.  C11, C12: BPE.  C13: histories.  C14: vocabulary lookups.
#include "h.h"
#include "tokenizers/model.h"
#include "tokenizers/tokenizer.h"

namespace {

Str show(const std::vector<Token>& v) {
  Str o;
  for (auto& t : v) o += std::to_string(t.id) + ":" + esc(t.value) + "(" + std::to_string(t.offsets.first) + "," + std::to_string(t.offsets.second) + ") ";
  return o;
}
bool same(const std::vector<Token>& a, const std::vector<Token>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
    if (a[i].id != b[i].id || a[i].value != b[i].value || a[i].offsets != b[i].offsets) return false;
  return true;
}

PreTokenizedString with_words(const Strs& words) {
  Str all;
  for (auto& w : words) all += w;
  PreTokenizedString p{NormalizedString(wide(all))};
  p.splits.clear();
  int at = 0;
  for (auto& w : words) {
    int n = u32(w).size();
    p.splits.push_back(Split(w, {at, at + n}));
    at += n;
  }
  return p;
}

std::unordered_map<Str, int> vocab_of(const Case& c) {
  std::unordered_map<Str, int> v;
  Strs l = c.L("vocab");
  int base = c.I("base"), step = c.has("step") ? c.I("step") : 1;
  for (size_t i = 0; i < l.size(); i++)
    if (!v.count(l[i])) v[l[i]] = base + (int)i * step;
  return v;
}

// splits except word `tokenized` untouched; that one has a token already
Err frame(const PreTokenizedString& p, const PreTokenizedString& q, int tokenized) {
  EXPECT(p.splits.size() == q.splits.size(), "number of splits changed");
  for (size_t i = 0; i < p.splits.size(); i++)
    EXPECT(p.splits[i].normalized == q.splits[i].normalized && p.splits[i].offsets == q.splits[i].offsets, "split " << i << " changed");
  EXPECT(p.normalized.normalized == q.normalized.normalized && p.normalized.offsets == q.normalized.offsets && p.normalized.offset_ranges == q.normalized.offset_ranges, "normalized text changed");
  if (tokenized >= 0 && tokenized < (int)p.splits.size())
    EXPECT(same(p.splits[tokenized].tokens, q.splits[tokenized].tokens), "tokenized split became " << show(q.splits[tokenized].tokens));
  return {};
}

Err check_wordpiece(const Case& c) {
  auto vocab = vocab_of(c);
  Str unk = c.S("unk"), prefix = c.S("prefix");
  int limit = c.I("limit"), tok = c.I("tokenized");
  WordPiece m(vocab, unk, limit, prefix);
  PreTokenizedString p = with_words(c.L("words"));
  if (tok >= 0 && tok < (int)p.splits.size()) p.splits[tok].tokens = {Token(9999, "[X]", {0, 1})};
  PreTokenizedString q = m.tokenize(p);
  Err e = frame(p, q, tok);
  if (e) return e;
  for (int i = 0; i < (int)p.splits.size(); i++) {
    if (i == tok) continue;
    std::u32string w = u32(p.splits[i].normalized);
    int n = w.size();
    std::vector<Token> want;
    bool bad = n > limit;
    for (int a = 0; a < n && !bad;) {
      int best = -1;
      for (int b = a + 1; b <= n; b++)
        if (vocab.count((a ? prefix : "") + u8(w.substr(a, b - a)))) best = b;
      if (best < 0) {
        bad = true;
      } else {
        Str t = (a ? prefix : "") + u8(w.substr(a, best - a));
        want.push_back(Token(vocab[t], t, {a, best}));
        a = best;
      }
    }
    if (bad) want = {Token(vocab.count(unk) ? vocab[unk] : 0, unk, {0, n})};
    EXPECT(same(want, q.splits[i].tokens), "word " << esc(p.splits[i].normalized) << ": expected " << show(want) << "got " << show(q.splits[i].tokens));
  }
  return {};
}

Strs letters(Rng& r) {
  static const std::vector<Strs> sets = {{"a", "b"}, {"a", "b", "c"}, {"a", u8(U'\u00e9'), u8(U'\u4e00')}, {"a", u8(char32_t(0x1F600)), "b"}, {"a", "b", "c", "d", "e"}};
  return r.pick(sets);
}
Str word(Rng& r, const Strs& a, int n) {
  Str o;
  for (int i = r.in(1, n); i > 0; i--) o += r.pick(a);
  return o;
}

void explore_wordpiece(Explorer& ex) {
  Rng& r = ex.rng;
  int loops = 0;
  do {
    for (int k = 0; k < 40; k++) {
      Strs a = letters(r), v;
      Str prefix = r.one_in(4) ? "" : r.coin() ? "##" : "#";
      for (int i = r.in(1, 10); i > 0; i--) v.push_back((r.coin() ? prefix : "") + word(r, a, 4));
      if (r.coin())
        for (auto& x : a) {
          v.push_back(x);
          v.push_back(prefix + x);
        }
      Str unk = r.one_in(5) ? "" : "[UNK]";
      if (r.one_in(5)) unk = r.pick(v);
      if (!r.one_in(4)) v.push_back("[UNK]");
      Strs w;
      for (int i = r.in(1, 4); i > 0; i--) w.push_back(word(r, a, 8));
      if (r.one_in(5)) w.push_back("");
      if (r.one_in(8)) w.push_back(w[0] + (r.coin() ? " " : r.coin() ? "[UNK]" : "##") + word(r, a, 3));
      ex.run(Case().l("vocab", v).i("base", r.one_in(3) ? r(50) : 0).s("unk", unk).s("prefix", prefix).i("limit", r.one_in(4) ? r(6) : 100).l("words", w).i("tokenized", r.one_in(4) ? r(3) : -1));
    }
    // pieces and words of hundreds of characters
    if (loops++ % 8 == 0) {
      Strs a = letters(r), v = a, w;
      Str prefix = r.coin() ? "##" : "";
      for (auto& x : a) v.push_back(prefix + x);
      for (int i = r.in(1, 5); i > 0; i--) {
        Str l;
        for (int n = r.in(20, r.one_in(3) ? 600 : 150); n > 0; n--) l += r.pick(a);
        v.push_back(r.coin() ? prefix + l : l);
        w.push_back(r.coin() ? l : r.coin() ? l + word(r, a, 200) : word(r, a, 4) + l);
      }
      v.push_back("[UNK]");
      ex.run(Case().l("vocab", v).i("base", 0).s("unk", "[UNK]").s("prefix", prefix).i("limit", r.one_in(3) ? r.in(50, 300) : 5000).l("words", w).i("tokenized", -1));
    }
  } while (ex.more());
}

// ---- BPE reference ----
struct Sym {
  int id;
  int a, b;  // bytes of the word
};
struct Bpe {
  std::unordered_map<Str, int> vocab;
  std::map<int, Str> by_id;
  std::map<std::pair<int, int>, PII> merges;
  Str unk, prefix, suffix;
  bool fuse, fallback, ignore;
};
Bpe bpe_of(const Case& c) {
  Bpe b;
  b.vocab = vocab_of(c);
  for (auto& e : b.vocab) b.by_id[e.second] = e.first;
  b.unk = c.S("unk");
  b.prefix = c.S("prefix");
  b.suffix = c.S("suffix");
  b.fuse = c.I("fuse_unk");
  b.fallback = c.I("byte_fallback");
  b.ignore = c.I("ignore_merges");
  Strs m = c.L("merges");
  for (size_t i = 0; i < m.size(); i++) {
    size_t sp = m[i].find(' ');
    Str x = m[i].substr(0, sp), y = m[i].substr(sp + 1);
    if (!b.vocab.count(x) || !b.vocab.count(y) || y.size() < b.prefix.size()) continue;
    Str z = x + y.substr(b.prefix.size());
    if (!b.vocab.count(z)) continue;
    b.merges.insert({{b.vocab[x], b.vocab[y]}, {(int)i, b.vocab[z]}});
  }
  return b;
}
std::vector<Sym> initial(const Bpe& b, const Str& w) {
  std::vector<Sym> r;
  std::u32string t = u32(w);
  bool open_unk = false;
  int at = 0;
  for (size_t k = 0; k < t.size(); k++) {
    Str ch = u8(t[k]), s = ch;
    if (k) s = b.prefix + s;
    if (k + 1 == t.size()) s += b.suffix;
    int to = at + ch.size();
    if (b.vocab.count(s)) {
      r.push_back({b.vocab.at(s), at, to});
      open_unk = false;
    } else {
      bool bytes = b.fallback;
      std::vector<int> ids;
      for (unsigned char x : s) {
        char buf[8];
        snprintf(buf, sizeof buf, "<0x%02X>", x);
        if (!b.vocab.count(buf))
          bytes = false;
        else
          ids.push_back(b.vocab.at(buf));
      }
      if (bytes) {
        for (size_t j = 0; j < ids.size(); j++) r.push_back({ids[j], std::min(at + (int)j, (int)w.size() - 1), std::min(at + (int)j + 1, (int)w.size())});
        open_unk = false;
      } else if (!b.unk.empty() && b.vocab.count(b.unk)) {
        if (open_unk && b.fuse)
          r.back().b = to;
        else
          r.push_back({b.vocab.at(b.unk), at, to});
        open_unk = true;
      }
    }
    at = to;
  }
  return r;
}
std::vector<Token> bpe_ref(const Bpe& b, const Str& w, bool merge) {
  std::vector<Token> out;
  std::u32string t = u32(w);
  if (b.ignore && b.vocab.count(w)) return {Token(b.vocab.at(w), w, {0, (int)t.size()})};
  auto s = initial(b, w);
  while (merge) {
    int best = -1, rank = 0, id = 0;
    for (size_t i = 0; i + 1 < s.size(); i++) {
      auto it = b.merges.find({s[i].id, s[i + 1].id});
      if (it != b.merges.end() && (best < 0 || it->second.first < rank)) {
        best = i;
        rank = it->second.first;
        id = it->second.second;
      }
    }
    if (best < 0) break;
    s[best] = {id, s[best].a, s[best + 1].b};
    s.erase(s.begin() + best + 1);
  }
  std::vector<int> first, last;  // byte -> character
  for (size_t k = 0; k < t.size(); k++)
    for (size_t j = 0; j < u8(t[k]).size(); j++) first.push_back(k);
  for (auto& x : s) out.push_back(Token(x.id, b.by_id.at(x.id), {first[x.a], first[x.b - 1] + 1}));
  return out;
}

BPE real_bpe(const Case& c) {
  return BPE(vocab_of(c), c.L("merges"), 0.0f, c.S("unk"), c.S("prefix"), c.S("suffix"), c.I("fuse_unk"), c.I("byte_fallback"), c.I("ignore_merges"));
}

Err check_bpe(const Case& c) {
  Bpe b = bpe_of(c);
  BPE m = real_bpe(c);
  PreTokenizedString p = with_words(c.L("words"));
  int tok = c.has("tokenized") ? c.I("tokenized") : -1;
  if (tok >= 0 && tok < (int)p.splits.size()) p.splits[tok].tokens = {Token(9999, "[X]", {0, 1})};
  PreTokenizedString q = m.tokenize(p);
  Err e = frame(p, q, tok);
  if (e) return e;
  for (int i = 0; i < (int)p.splits.size(); i++) {
    if (i == tok) continue;
    auto want = bpe_ref(b, p.splits[i].normalized, true);
    // characters that stand for nothing shift the offsets: compare those only without such characters
    int at = 0;
    bool whole = true;
    for (auto& s : initial(b, p.splits[i].normalized)) {
      whole = whole && s.a == at;
      at = s.b;
    }
    whole = whole && at == (int)p.splits[i].normalized.size();
    if (!whole && want.size() == q.splits[i].tokens.size())
      for (size_t k = 0; k < want.size(); k++) want[k].offsets = q.splits[i].tokens[k].offsets;
    EXPECT(same(want, q.splits[i].tokens), "word " << esc(p.splits[i].normalized) << ": expected " << show(want) << "got " << show(q.splits[i].tokens));
  }
  return {};
}

// tiling and agreement with the vocabulary, without the merge order
Err check_tiling(const Case& c) {
  Bpe b = bpe_of(c);
  BPE m = real_bpe(c);
  PreTokenizedString p = with_words(c.L("words"));
  PreTokenizedString q = m.tokenize(p);
  Err fr = frame(p, q, -1);
  if (fr) return fr;
  for (size_t i = 0; i < p.splits.size(); i++) {
    Str w = p.splits[i].normalized;
    std::u32string t = u32(w);
    auto init = initial(b, w);
    bool whole = true;  // every character stands for something
    int at = 0;
    for (auto& s : init) {
      if (s.a != at) whole = false;
      at = s.b;
    }
    if (at != (int)w.size()) whole = false;
    if (b.ignore && b.vocab.count(w)) whole = true;
    auto& toks = q.splits[i].tokens;
    for (auto& k : toks) EXPECT(b.by_id.count(k.id) && b.by_id[k.id] == k.value, "token " << show({k}) << " is not in the vocabulary");
    if (!whole) continue;
    int cur = 0, n = t.size();
    for (auto& k : toks) {
      bool byte = k.value.size() >= 6 && k.value.substr(0, 3) == "<0x";
      EXPECT(k.offsets.first == cur || (byte && k.offsets.first == cur - 1), "tokens do not tile " << esc(w) << ": " << show(toks));
      EXPECT(k.offsets.second > k.offsets.first, "empty token: " << show(toks));
      cur = k.offsets.second;
    }
    EXPECT(cur == n, "tokens do not cover " << esc(w) << ": " << show(toks));
    if (c.L("merges").empty()) {
      auto want = bpe_ref(b, w, false);
      EXPECT(same(want, toks), "word " << esc(w) << ": expected " << show(want) << "got " << show(toks));
    }
  }
  return {};
}

void trained(Explorer& ex, Case& c, bool merges) {
  Rng& r = ex.rng;
  Strs a = letters(r), v, m;
  Str prefix = r.one_in(5) ? "##" : "", suffix = r.one_in(5) ? "</w>" : "";
  std::vector<Strs> units;  // unit: text with prefix form
  Strs firsts, conts;
  for (auto& x : a)
    if (!r.one_in(8)) {
      for (int k = 0; k < 4; k++) {
        Str t = (k & 1 ? prefix : "") + x + (k & 2 ? suffix : "");
        if (((k & 1) && prefix.empty()) || ((k & 2) && suffix.empty())) continue;
        v.push_back(t);
        ((k & 1) || prefix.empty() ? conts : firsts).push_back(t);
        if (prefix.empty()) firsts.push_back(t);
      }
    }
  if (merges && !firsts.empty() && !conts.empty()) {
    std::set<Str> have(v.begin(), v.end());
    for (int i = r.in(1, 12); i > 0; i--) {
      bool cont = !prefix.empty() && r.coin();
      Str x = cont ? r.pick(conts) : r.pick(firsts), y = r.pick(conts);
      // a second part without the prefix loses as many bytes of its own
      if (!prefix.empty() && r.one_in(6) && !v.empty()) y = r.pick(v);
      if (y.size() < prefix.size()) continue;
      if (!suffix.empty() && x.size() >= suffix.size() && x.substr(x.size() - suffix.size()) == suffix) continue;
      Str z = x + y.substr(prefix.size());
      if (z.size() > 40) continue;
      m.push_back(x + " " + y);
      if (!r.one_in(10) && have.insert(z).second) v.push_back(z);
      if (have.count(z)) (cont || prefix.empty() ? conts : firsts).push_back(z);
      if (have.count(z) && prefix.empty()) firsts.push_back(z);
    }
    if (r.one_in(3)) std::shuffle(m.begin(), m.end(), r.g);
  }
  bool unk = r.coin();
  if (unk && !r.one_in(6)) v.push_back("<unk>");
  if (unk && !prefix.empty() && !v.empty() && merges && r.coin()) {  // the unknown token as a second part
    Str x = r.pick(v);
    if (r.coin()) v.push_back(x + "nk>");
    if (r.coin()) v.push_back(x + "<unk>");
    m.push_back(x + " <unk>");
  }
  bool fb = r.one_in(3) && ((prefix.empty() && suffix.empty()) || r.one_in(4));
  if (fb) {
    bool all = r.coin();
    for (int x = 0; x < 256; x++) {
      char buf[8];
      snprintf(buf, sizeof buf, "<0x%02X>", x);
      if (all || !r.one_in(20)) v.push_back(buf);
    }
    // merges of byte tokens
    if (merges && prefix.empty())
      for (int i = r.coin() ? 0 : r.in(1, 8); i > 0; i--) {
        Str ch = r.coin() ? a.back() : u8(r.coin() ? U'\u00fc' : char32_t(r.in(0x2010, 0x2030)));
        if (ch.size() < 2) ch = u8(U'\u20ac');
        size_t at = r(ch.size() - 1);
        char x[8], y[8];
        snprintf(x, sizeof x, "<0x%02X>", (unsigned char)ch[at]);
        snprintf(y, sizeof y, "<0x%02X>", (unsigned char)ch[at + 1]);
        m.insert(m.begin() + r(m.size() + 1), Str(x) + " " + y);
        if (std::find(v.begin(), v.end(), Str(x) + y) == v.end()) v.push_back(Str(x) + y);
      }
  }
  if (r.one_in(2)) std::shuffle(v.begin(), v.end(), r.g);
  Strs w, a2 = a;
  a2.push_back("z");
  a2.push_back(u8(U'\u00fc'));
  if (fb) a2.push_back(u8(r.coin() ? U'\u20ac' : char32_t(r.in(0x2010, 0x2030))));
  a2.push_back(u8(char32_t(r.coin() ? r.in(1, 0x7f) : r.one_in(3) ? r.in(0x10000, 0x10ffff) : r.in(0xa0, 0xd7ff))));
  for (int i = r.in(1, 4); i > 0; i--) w.push_back(word(r, r.one_in(3) ? a2 : a, merges ? 12 : 8));
  if (r.one_in(8)) w.push_back("");
  if (Str x = r.one_in(8) && !v.empty() ? r.pick(v) : ""; !x.empty() && u8(u32(x)) == x) w.push_back(x);
  if (r.one_in(3)) w.push_back(w[0]);
  if (r.one_in(12)) w.push_back(word(r, r.one_in(3) ? a2 : a, r.one_in(4) ? 1500 : 200));
  c.l("vocab", v).i("base", r.one_in(4) ? 7 : 0).i("step", r.one_in(6) ? 3 : 1).l("merges", m).s("unk", unk ? "<unk>" : "").s("prefix", prefix).s("suffix", suffix);
  c.i("fuse_unk", r.coin()).i("byte_fallback", fb).i("ignore_merges", r.one_in(4)).l("words", w).i("tokenized", r.one_in(6) ? 0 : -1);
}
void explore_bpe(Explorer& ex) {
  do {
    for (int k = 0; k < 30; k++) {
      Case c;
      trained(ex, c, true);
      ex.run(c);
    }
  } while (ex.more());
}
void explore_tiling(Explorer& ex) {
  do {
    for (int k = 0; k < 30; k++) {
      Case c;
      trained(ex, c, k % 2);
      ex.run(c);
    }
  } while (ex.more());
}

// ---- histories ----
Err check_history(const Case& c) {
  BPE shared = real_bpe(c);
  Strs w = c.L("words");
  for (size_t i = 0; i < w.size(); i++) {
    PreTokenizedString q = shared.tokenize(with_words({w[i]}));
    BPE fresh = real_bpe(c);
    PreTokenizedString f = fresh.tokenize(with_words({w[i]}));
    EXPECT(same(f.splits[0].tokens, q.splits[0].tokens), "call " << i << " on " << esc(w[i]) << " gives " << show(q.splits[0].tokens) << "but a fresh model gives " << show(f.splits[0].tokens));
  }
  // one call with all words
  PreTokenizedString q = shared.tokenize(with_words(w));
  for (size_t i = 0; i < w.size(); i++) {
    BPE fresh = real_bpe(c);
    PreTokenizedString f = fresh.tokenize(with_words({w[i]}));
    EXPECT(same(f.splits[0].tokens, q.splits[i].tokens), "word " << esc(w[i]) << " in one call gives " << show(q.splits[i].tokens) << "but a fresh model gives " << show(f.splits[0].tokens));
  }
  // many other words in between (numbers written with the letters), now and then one that was there before
  int flood = c.has("flood") ? c.I("flood") : 0, base = c.has("flood_base") ? c.I("flood_base") : 0;
  if (flood) {
    Strs many;
    std::vector<std::vector<Token>> before;
    for (int i = 0; i < flood; i++) {
      Str x;
      for (int k = base + i + 2; k > 1; k /= 2) x += k % 2 ? "a" : "b";
      many.push_back(x);
    }
    for (int round = 0; round < 2; round++)
      for (int i = 0; i < flood; i++) {
        PreTokenizedString f = shared.tokenize(with_words({many[i]}));
        if (round == 0) before.push_back(f.splits[0].tokens);
        EXPECT(same(before[i], f.splits[0].tokens), "word " << i << " of many, " << esc(many[i]) << ", first gives " << show(before[i]) << "and then " << show(f.splits[0].tokens));
        if (i % 16 && i + 20 < flood) continue;
        BPE fresh = real_bpe(c);
        PreTokenizedString g = fresh.tokenize(with_words({many[i]}));
        EXPECT(same(g.splits[0].tokens, f.splits[0].tokens), "word " << i << " of many, " << esc(many[i]) << ", gives " << show(f.splits[0].tokens) << "but a fresh model gives " << show(g.splits[0].tokens));
      }
    if (c.has("late"))
      for (auto& x : c.L("late")) w.push_back(x);
    for (auto& x : w) {
      PreTokenizedString q = shared.tokenize(with_words({x}));
      BPE fresh = real_bpe(c);
      PreTokenizedString f = fresh.tokenize(with_words({x}));
      EXPECT(same(f.splits[0].tokens, q.splits[0].tokens), "word " << esc(x) << " after many others gives " << show(q.splits[0].tokens) << "but a fresh model gives " << show(f.splits[0].tokens));
    }
  }
  // the whole tokenizer
  Str cfg = "{\"truncation\":null,\"padding\":null,\"added_tokens\":[{\"id\":0,\"content\":\"<s>\",\"single_word\":false,\"lstrip\":false,\"rstrip\":false,\"normalized\":false,\"special\":true}],\"normalizer\":null,\"pre_tokenizer\":{\"type\":\"ByteLevel\",\"add_prefix_space\":false,\"trim_offsets\":true,\"use_regex\":true},\"post_processor\":null,\"decoder\":{\"type\":\"ByteLevel\"},\"model\":{\"type\":\"BPE\",\"dropout\":null,\"unk_token\":null,\"continuing_subword_prefix\":null,\"end_of_word_suffix\":null,\"fuse_unk\":false,\"byte_fallback\":false,\"ignore_merges\":false,\"vocab\":{\"a\":0,\"b\":1,\"ab\":2,\"\\u0120\":3,\"\\u0120a\":4,\"aba\":5},\"merges\":[\"a b\",\"\\u0120 a\",\"ab a\"]}}";
  if (c.I("tokenizer")) {
    Tokenizer t("", cfg);
    for (auto& x : w) {
      Tokenizer fresh("", cfg);
      Encoding e = t.encode(wide("<s>" + x + " " + x), false), f = fresh.encode(wide("<s>" + x + " " + x), false);
      Err bad = same_encoding(f, e, "encode " + esc(x));
      if (bad) return bad;
      EXPECT(t.decode(e.ids, false) == fresh.decode(e.ids, false), "decode differs");
    }
  }
  return {};
}
void explore_history(Explorer& ex) {
  int loops = 0;
  do {
    for (int k = 0; k < 10; k++) {
      Case c;
      trained(ex, c, true);
      Strs w = c.L("words");
      int n = w.size();
      for (int i = ex.rng(8); i > 0; i--) w.push_back(ex.rng.coin() ? w[ex.rng(n)] : word(ex.rng, {"a", "b"}, 9));
      // long words, and others that begin or end like them
      if (ex.rng.one_in(3)) {
        Str l = word(ex.rng, {"a", "b"}, 20);
        for (int i = ex.rng.in(10, ex.rng.one_in(4) ? 1000 : 120); i > 0; i--) l += ex.rng.coin() ? "a" : "b";
        w.push_back(l);
        for (int i = 0; i < 3; i++) w.push_back(ex.rng.coin() ? l.substr(0, 1 << ex.rng.in(2, 8)) : ex.rng.coin() ? l.substr(0, ex.rng(l.size())) : l.substr(ex.rng(l.size())));
        w.push_back(l);
      }
      // words that others begin with
      if (ex.rng.one_in(3))
        for (int i = 0; i < 6; i++) {
          Str x = ex.rng.pick(w);
          static const Strs odd = {"\n", " ", "\t", "\r", ".", ",", "'", "-", "_", "0", "A", "\x7f", "\x01", "\xc2\xa0", "\xc4\xa0", "##", "</w>"};
          w.push_back(x);
          w.push_back(ex.rng.one_in(3) ? ex.rng.pick(odd) + x : x + ex.rng.pick(odd));
        }
      c.l("words", w).i("tokenizer", ex.rng.one_in(6));
      ex.run(c);
    }
    if (++loops % 8 != 1) continue;
    Case c;
    trained(ex, c, true);
    c.i("tokenizer", 0).i("flood", ex.rng.one_in(8) ? 12000 : ex.rng.one_in(3) ? 1500 : 300).i("flood_base", ex.rng(1000));
    // words that come after all of them, in groups that differ in one letter
    Strs late;
    for (int g = 0; g < 20; g++) {
      Str x;
      for (int i = 1 + ex.rng(ex.rng.coin() ? 14 : 80); i > 0; i--) x += ex.rng.coin() ? "a" : "b";
      for (int v = 0; v < 4; v++) {
        late.push_back(x);
        size_t at = ex.rng(3) == 0 ? 0 : ex.rng.coin() ? x.size() - 1 : ex.rng(x.size());
        x[at] = x[at] == 'a' ? 'b' : 'a';
      }
    }
    c.l("late", late);
    ex.run(c);
  } while (ex.more());
}

// ---- vocabulary ----
Err check_vocab(const Case& c) {
  auto vocab = vocab_of(c);
  std::unique_ptr<Model> m;
  if (c.I("bpe"))
    m = std::make_unique<BPE>(vocab, Strs{}, 0.0f, "", "", "", false, false, false);
  else
    m = std::make_unique<WordPiece>(vocab, "[UNK]", 100, "##");
  EXPECT(m->get_vocab_size() == (int)vocab.size(), "size " << m->get_vocab_size() << " instead of " << vocab.size());
  std::map<int, Str> r;
  for (auto& e : vocab) r[e.second] = e.first;
  for (auto& q : c.L("queries")) {
    auto got = m->token_to_id(q);
    auto it = vocab.find(q);
    EXPECT(got == (it == vocab.end() ? std::nullopt : std::optional<int>(it->second)), "token_to_id(" << esc(q) << ") is " << (got ? std::to_string(*got) : "nothing"));
  }
  for (auto& e : vocab) {
    auto got = m->token_to_id(e.first);
    EXPECT(got && *got == e.second, "token_to_id(" << esc(e.first) << ")");
  }
  int lo = c.I("base") - 3, hi = c.I("base") + (int)vocab.size() * (c.has("step") ? c.I("step") : 1) + 3;
  for (int i = lo; i <= hi; i++) {
    auto got = m->id_to_token(i);
    EXPECT(got == (r.count(i) ? std::optional<Str>(r[i]) : std::nullopt), "id_to_token(" << i << ") is " << (got ? esc(*got) : "nothing"));
  }
  for (int i : {-1, 0, 1 << 30, -(1 << 30)}) {
    auto got = m->id_to_token(i);
    EXPECT(got == (r.count(i) ? std::optional<Str>(r[i]) : std::nullopt), "id_to_token(" << i << ") is " << (got ? esc(*got) : "nothing"));
  }
  return {};
}
void explore_vocab(Explorer& ex) {
  Rng& r = ex.rng;
  do {
    for (int k = 0; k < 40; k++) {
      Strs v, q;
      for (int i = r(14); i > 0; i--) v.push_back(r.one_in(8) ? random_text(r, 5) : word(r, {"a", "b", "c"}, 4));
      for (int i = r(6); i > 0; i--) q.push_back(r.coin() ? word(r, {"a", "b", "c"}, 4) : random_text(r, 4));
      q.push_back("");
      ex.run(Case().l("vocab", v).i("base", r.one_in(3) ? r.in(-5, 100) : 0).i("step", r.one_in(3) ? r.in(1, 9) : 1).l("queries", q).i("bpe", r.coin()));
    }
  } while (ex.more());
}

Reg r10({"C10", "random vocabularies of short pieces over small alphabets (all planes) and random words", explore_wordpiece, check_wordpiece});
Reg r11({"C11", "random BPE vocabularies with all option combinations and random words with unknown characters", explore_tiling, check_tiling});
Reg r12({"C12", "random trained-like BPE vocabularies and merge lists, random words; the oracle merges naively", explore_bpe, check_bpe});
Reg r13({"C13", "random sequences of tokenize / encode / decode calls against a fresh model for each call", explore_history, check_history});
Reg r14({"C14", "random vocabularies (any ids, any texts), all ids around them and random texts", explore_vocab, check_vocab});

}  // namespace
