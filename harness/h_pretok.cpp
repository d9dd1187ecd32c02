// C08, C09: splitting.
#include <unicode/regex.h>

#include "h.h"
#include "tokenizers/pre_tokenizer.h"

namespace {

// matches in code points, computed here with ICU
std::vector<PII> regex_matches(const Str& pattern, const Str& text) {
  UErrorCode st = U_ZERO_ERROR;
  icu::UnicodeString in = icu::UnicodeString::fromUTF8(text);
  icu::RegexMatcher m(icu::UnicodeString::fromUTF8(pattern), in, 0, st);
  std::vector<PII> r;
  while (m.find(st)) r.push_back({in.countChar32(0, m.start(st)), in.countChar32(0, m.end(st))});
  return r;
}

struct Piece2 {
  PII span;
  bool match;
};
std::vector<Piece2> pieces(const Str& pattern, const Str& text) {
  int n = u32(text).size(), cur = 0;
  std::vector<Piece2> r;
  for (auto m : regex_matches(pattern, text)) {
    if (m.first > cur) r.push_back({{cur, m.first}, false});
    if (m.second > m.first) r.push_back({m, true});
    cur = m.second;
  }
  if (cur < n) r.push_back({{cur, n}, false});
  return r;
}

// a pre-tokenized string: splits of a text, some with tokens
PreTokenizedString build(const Case& c) {
  Str text = c.S("text");
  PreTokenizedString p{NormalizedString(wide(text))};
  std::u32string t = u32(text);
  Strs cuts = c.L("cuts");  // positions; "+n" marks the split that ends there as tokenized
  if (cuts.empty()) return p;
  p.splits.clear();
  int at = 0;
  auto add = [&](int to, bool tok) {
    if (to <= at) return;
    Split s(u8(t.substr(at, to - at)), {at, to});
    if (tok) s.tokens = {Token(77, s.normalized, {0, to - at})};
    p.splits.push_back(s);
    at = to;
  };
  for (auto& k : cuts) {
    bool tok = k[0] == '+';
    int to = std::min<int>(atoi(k.c_str() + (tok ? 1 : 0)), t.size());
    add(to, tok);
  }
  add(t.size(), false);
  return p;
}

Str show(const std::vector<Split>& v) {
  Str o;
  for (auto& s : v) o += esc(s.normalized) + "(" + std::to_string(s.offsets.first) + "," + std::to_string(s.offsets.second) + ")" + (s.tokens.empty() ? "" : "*") + " ";
  return o;
}
bool same(const std::vector<Split>& a, const std::vector<Split>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) {
    if (a[i].normalized != b[i].normalized || a[i].offsets != b[i].offsets || a[i].tokens.size() != b[i].tokens.size()) return false;
    for (size_t j = 0; j < a[i].tokens.size(); j++)
      if (a[i].tokens[j].id != b[i].tokens[j].id || a[i].tokens[j].value != b[i].tokens[j].value || a[i].tokens[j].offsets != b[i].tokens[j].offsets) return false;
  }
  return true;
}
std::vector<Split> nonempty(const std::vector<Split>& v) {
  std::vector<Split> r;
  for (auto& s : v)
    if (!s.normalized.empty() || !s.tokens.empty()) r.push_back(s);
  return r;
}

std::vector<Split> split_ref(const std::vector<Split>& in, const Str& pattern, bool isolated, bool invert) {
  std::vector<Split> r;
  for (auto& s : in) {
    if (!s.tokens.empty()) {
      r.push_back(s);
      continue;
    }
    std::u32string t = u32(s.normalized);
    for (auto& p : pieces(pattern, s.normalized))
      if (isolated || p.match == invert)
        r.push_back(Split(u8(t.substr(p.span.first, p.span.second - p.span.first)), {p.span.first + s.offsets.first, p.span.second + s.offsets.first}));
  }
  return r;
}

Err check_split(const Case& c) {
  PreTokenizedString p = build(c);
  bool invert = c.I("invert"), isolated = c.S("behavior") == "Isolated";
  PreTokenizedString q = SplitPreTokenizer(c.S("pattern"), c.S("behavior"), invert).pre_tokenize(p);
  auto want = split_ref(p.splits, c.S("pattern"), isolated, invert);
  auto got = nonempty(q.splits);
  EXPECT(same(want, got), "expected " << show(want) << " got " << show(got));
  EXPECT(q.normalized.normalized == p.normalized.normalized, "text changed");
  g_trivial = same(p.splits, got);
  return {};
}

void cuts(Case& c, Explorer& ex, int n) {
  Strs k;
  if (ex.rng.one_in(3)) {
    int at = 0;
    while (at < n && ex.rng(4)) {
      at += 1 + ex.rng(4);
      k.push_back((ex.rng.coin() ? "+" : "") + std::to_string(at));
    }
  }
  c.l("cuts", k);
}

void explore_split(Explorer& ex) {
  Strs patterns = {"\\s+", "\\s", "a", "ab|b", "[ab]+", "\\p{L}+|\\p{N}+", "x", "\\p{P}", ".", "[^ ]+", "\\S+", "a|\\s", "b?", "\\w+|[^\\w\\s]+",
                   "'s|'t|'re|'ve|'m|'ll|'d| ?\\p{L}+| ?\\p{N}+| ?[^\\s\\p{L}\\p{N}]+|\\s+(?!\\S)|\\s+", "\\x{1F600}"};
  // all short words over a small alphabet
  Strs alpha = {"a", "b", " ", u8(char32_t(0x1F600))};
  int L = ex.thorough ? 5 : 4;
  for (int len = 0; len <= L; len++) {
    int total = 1;
    for (int i = 0; i < len; i++) total *= 4;
    for (int w = 0; w < total; w++) {
      Str t;
      for (int i = 0, x = w; i < len; i++, x /= 4) t += alpha[x % 4];
      for (int p = 0; p < 4; p++)
        for (int b = 0; b < 2; b++) ex.run(Case().s("text", t).s("pattern", patterns[p]).s("behavior", b ? "Isolated" : "Removed").i("invert", w % 2).l("cuts", {}));
    }
  }
  do {
    for (int k = 0; k < 50; k++) {
      Case c;
      Str t = random_text(ex.rng, 14);
      c.s("text", t).s("pattern", ex.rng.pick(patterns)).s("behavior", ex.rng.coin() ? "Isolated" : "Removed").i("invert", ex.rng.one_in(4));
      cuts(c, ex, u32(t).size());
      ex.run(c);
    }
  } while (ex.more());
}

Err check_bert(const Case& c) {
  PreTokenizedString p = build(c);
  PreTokenizedString q = BertPreTokenizer().pre_tokenize(p);
  auto want = split_ref(split_ref(p.splits, "\\s+", false, false), "\\p{P}", true, false);
  // the same thing, stated by characters
  UErrorCode st = U_ZERO_ERROR;
  icu::UnicodeSet space(icu::UnicodeString("[\\p{White_Space}]"), st), punct(icu::UnicodeString("[\\p{P}]"), st);
  std::vector<Split> direct;
  for (auto& s : p.splits) {
    if (!s.tokens.empty()) {
      direct.push_back(s);
      continue;
    }
    std::u32string t = u32(s.normalized);
    int a = 0;
    auto flush = [&](int b) {
      if (b > a) direct.push_back(Split(u8(t.substr(a, b - a)), {a + s.offsets.first, b + s.offsets.first}));
    };
    for (int i = 0; i < (int)t.size(); i++) {
      if (space.contains((UChar32)t[i])) {
        flush(i);
        a = i + 1;
      } else if (punct.contains((UChar32)t[i])) {
        flush(i);
        a = i;
        flush(i + 1);
        a = i + 1;
      }
    }
    flush(t.size());
  }
  auto got = nonempty(q.splits);
  EXPECT(same(direct, got), "expected " << show(direct) << " got " << show(got));
  g_trivial = same(p.splits, got);
  return {};
}

void explore_bert(Explorer& ex) {
  Strs alpha = {"a", " ", ".", "\t"};
  for (int len = 0; len <= (ex.thorough ? 6 : 5); len++) {
    int total = 1;
    for (int i = 0; i < len; i++) total *= 4;
    for (int w = 0; w < total; w++) {
      Str t;
      for (int i = 0, x = w; i < len; i++, x /= 4) t += alpha[x % 4];
      ex.run(Case().s("text", t).l("cuts", {}));
    }
  }
  for (char32_t c = 1; c < 0x3100; c += ex.thorough ? 1 : 3) ex.run(Case().s("text", "a" + u8(c) + "b").l("cuts", {}));
  do {
    for (int k = 0; k < 50; k++) {
      Case c;
      Str t = random_text(ex.rng, 16);
      c.s("text", t);
      cuts(c, ex, u32(t).size());
      ex.run(c);
    }
  } while (ex.more());
}

Reg r8({"C08", "all short texts over a 4-letter alphabet with 4 patterns, then random texts, patterns, behaviours and tokenized splits; trivial: the pattern changes nothing", explore_split, check_split});
Reg r9({"C09", "all short texts over letter/space/punctuation, single characters up to U+3100, random texts with tokenized splits; trivial: one word", explore_bert, check_bert});

}  // namespace
