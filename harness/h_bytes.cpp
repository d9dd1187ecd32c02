// C06: the byte-level alphabet.
#include <unicode/regex.h>

#include "h.h"
#include "tokenizers/decoder.h"
#include "tokenizers/pre_tokenizer.h"

namespace {

char32_t ref_char(int b) {
  if ((b >= '!' && b <= '~') || (b >= 0xA1 && b <= 0xAC) || (b >= 0xAE && b <= 0xFF)) return b;
  int k = 0;
  for (int x = 0; x < b; x++)
    if (!((x >= '!' && x <= '~') || (x >= 0xA1 && x <= 0xAC) || (x >= 0xAE && x <= 0xFF))) k++;
  return 0x100 + k;
}

Err check_bytes(const Case& c) {
  if (c.S("kind") == "alphabet") {
    auto m = bytes_char();
    EXPECT(m.size() == 256, "alphabet has " << m.size() << " entries");
    for (int b = 0; b < 256; b++) EXPECT(m.count(b) && m[b] == u8(ref_char(b)), "byte " << b << " is mapped to " << (m.count(b) ? esc(m[b]) : "nothing"));
    return {};
  }
  if (c.S("kind") == "decode") {
    // bytes cut into tokens at character boundaries, with raw tokens in between
    Str want;
    Strs toks;
    for (auto& t : c.L("tokens")) {
      if (!t.empty() && t[0] == 'r') {
        toks.push_back(t.substr(1));
        want += t.substr(1);
      } else {
        Str m;
        for (unsigned char b : t.substr(t.empty() ? 0 : 1)) m += u8(ref_char(b));
        toks.push_back(m);
        want += t.substr(t.empty() ? 0 : 1);
      }
    }
    static ByteLevelDecoder d;
    Strs out = d.decode_chain(toks);
    Str got;
    for (auto& s : out) got += s;
    EXPECT(got == want, "tokens " << show(toks) << " decode to " << esc(got) << " instead of " << esc(want));
    return {};
  }
  Str text = c.S("text");
  bool prefix = c.I("prefix");
  static std::unique_ptr<ByteLevelPreTokenizer> pts[4];
  auto& slot = pts[c.I("use_regex") + 2 * prefix];
  if (!slot) slot = std::make_unique<ByteLevelPreTokenizer>(prefix, c.I("use_regex"));
  const ByteLevelPreTokenizer& pt = *slot;
  PreTokenizedString p{NormalizedString(wide(text))};
  std::u32string t = u32(text);
  int n = t.size();
  // cuts: the text is cut there; a cut marked with + ends a split that has a token
  {
    std::vector<Split> ss;
    int at = 0;
    for (auto& k : c.L("cuts")) {
      int b = atoi(k.c_str() + (k[0] == '+'));
      if (b <= at || b > n) continue;
      Split s(u8(t.substr(at, b - at)), {at, b});
      if (k[0] == '+') s.tokens = {Token(5, s.normalized, {0, b - at})};
      ss.push_back(s);
      at = b;
    }
    if (!ss.empty()) {
      if (at < n) ss.push_back(Split(u8(t.substr(at)), {at, n}));
      p.splits = ss;
    }
  }
  PreTokenizedString q = pt.pre_tokenize(p);
  UErrorCode st = U_ZERO_ERROR;
  static const icu::UnicodeSet space(icu::UnicodeString("[\\p{White_Space}]"), st);
  static const icu::UnicodeString gpt2 = icu::UnicodeString::fromUTF8(R"('s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+)");
  // the text: the characters of the bytes, each aligned with the character it is a byte of
  std::u32string whole;
  std::vector<int> source;
  std::vector<Split> expect;
  Str want, got;
  for (auto& s : p.splits) {
    std::u32string x = t.substr(s.offsets.first, s.offsets.second - s.offsets.first);
    int start = whole.size();
    if (!s.tokens.empty()) {
      for (size_t i = 0; i < x.size(); i++) {
        whole += x[i];
        source.push_back(s.offsets.first + i);
      }
      Split e = s;
      e.offsets = {start, (int)whole.size()};
      expect.push_back(e);
      continue;
    }
    bool added = prefix && !x.empty() && !space.contains((UChar32)x[0]);
    if (added) x = U" " + x;
    want += u8(x);
    std::vector<int> byte_at;
    for (size_t i = 0; i < x.size(); i++) {
      byte_at.push_back(whole.size());
      for (unsigned char b : u8(x.substr(i, 1))) {
        whole += ref_char(b);
        source.push_back(s.offsets.first + (int)i - (added && i > 0));
      }
    }
    byte_at.push_back(whole.size());
    // the pieces: those of the GPT-2 pattern, or the whole text
    std::vector<PII> spans;
    if (c.I("use_regex")) {
      icu::UnicodeString in = icu::UnicodeString::fromUTF8(u8(x));
      icu::RegexMatcher m(gpt2, in, 0, st);
      int cur = 0;
      while (m.find(st)) {
        int a = in.countChar32(0, m.start(st)), b = in.countChar32(0, m.end(st));
        if (a > cur) spans.push_back({cur, a});
        if (b > a) spans.push_back({a, b});
        cur = b;
      }
      if (cur < (int)x.size()) spans.push_back({cur, (int)x.size()});
    } else if (!x.empty()) {
      spans.push_back({0, (int)x.size()});
    }
    for (auto& w : spans) expect.push_back(Split(u8(whole.substr(byte_at[w.first], byte_at[w.second] - byte_at[w.first])), {byte_at[w.first], byte_at[w.second]}));
  }
  EXPECT(q.normalized.normalized == wide(u8(whole)), esc(text) << " becomes " << esc(narrow(q.normalized.normalized)) << " instead of " << esc(u8(whole)));
  EXPECT(q.normalized.offset_ranges.size() == whole.size(), "the alignment of " << esc(text) << " has " << q.normalized.offset_ranges.size() << " entries instead of " << whole.size());
  for (size_t i = 0; i < whole.size(); i++) {
    PII r = q.normalized.offset_ranges[i];
    PII o = {q.normalized.offsets[r.first].first, q.normalized.offsets[r.first + r.second - 1].second};
    EXPECT(o == PII(source[i], source[i] + 1), "byte character " << i << " of " << esc(text) << " is aligned with " << show(std::vector<PII>{o}));
  }
  std::vector<Split> have;
  for (auto& s : q.splits)
    if (!s.normalized.empty() || !s.tokens.empty()) have.push_back(s);
  EXPECT(have.size() == expect.size(), esc(text) << " is cut into " << have.size() << " pieces instead of " << expect.size());
  static ByteLevelDecoder d;
  Strs pieces;
  for (size_t i = 0; i < have.size(); i++) {
    EXPECT(have[i].offsets == expect[i].offsets && have[i].normalized == expect[i].normalized && have[i].tokens.size() == expect[i].tokens.size(),
           "piece " << i << " of " << esc(text) << " is " << show(std::vector<PII>{have[i].offsets}) << " " << esc(have[i].normalized) << " instead of " << show(std::vector<PII>{expect[i].offsets}) << " " << esc(expect[i].normalized));
    if (have[i].tokens.empty()) pieces.push_back(have[i].normalized);
  }
  for (auto& s : d.decode_chain(pieces)) got += s;
  EXPECT(got == want, esc(text) << " round trip gives " << esc(got));
  g_trivial = want.empty();
  return {};
}

void explore_bytes(Explorer& ex) {
  ex.run(Case().s("kind", "alphabet"));
  for (int b = 0; b < 256; b++) ex.run(Case().s("kind", "decode").l("tokens", {"b" + Str(1, (char)b)}));
  for (int b = 1; b < 0x3000; b += ex.thorough ? 1 : 7)
    if (b < 0xD800) ex.run(Case().s("kind", "text").s("text", u8((char32_t)b)).i("use_regex", b & 1).i("prefix", b >> 1 & 1));
  do {
    for (int k = 0; k < 100; k++) {
      Strs toks;
      for (int n = ex.rng(5); n > 0; n--) {
        if (ex.rng.one_in(5)) {
          // a character outside the alphabet, perhaps after and before ones of it
          Str pre, post;
          for (int j = ex.rng.coin() ? ex.rng(4) : 0; j > 0; j--) pre += u8(ref_char(ex.rng(256)));
          for (int j = ex.rng.coin() ? ex.rng(4) : 0; j > 0; j--) post += u8(ref_char(ex.rng(256)));
          toks.push_back("r" + pre + Str(ex.rng.coin() ? u8(char32_t(0x1F600 + ex.rng(40))) + "a" : u8(char32_t(0x4E00 + ex.rng(99)))) + post);
        } else {
          Str s = "b";
          for (int j = ex.rng(6); j > 0; j--) s += (char)ex.rng(256);
          toks.push_back(s);
        }
      }
      ex.run(Case().s("kind", "decode").l("tokens", toks));
      Str t = random_text(ex.rng, 12);
      Strs cuts;
      if (ex.rng.coin())
        for (int at = 0; at < (int)u32(t).size() && ex.rng(4);) {
          at += 1 + ex.rng(4);
          cuts.push_back((ex.rng.coin() ? "+" : "") + std::to_string(at));
        }
      ex.run(Case().s("kind", "text").s("text", t).i("use_regex", ex.rng(2)).i("prefix", ex.rng(2)).l("cuts", cuts));
    }
  } while (ex.more());
}

Reg r6({"C06", "the alphabet, every byte, characters of the BMP, random byte strings cut into tokens and random texts; trivial: empty text", explore_bytes, check_bytes});

}  // namespace
