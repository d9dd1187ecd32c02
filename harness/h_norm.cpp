// C19: BERT normalizer.  C20: Strip, StripAccents, Prepend, Replace.  C21: alignment.  C26: Unicode forms.
#include "h.h"
#include "tokenizers/added_vocabulary.h"
#include "tokenizers/normalizer.h"

namespace {

struct Ch {
  char32_t c;
  int a, b;  // aligned with the original characters a..b
};
using Al = std::vector<Ch>;

Al fresh(const std::u32string& t) {
  Al r;
  for (size_t i = 0; i < t.size(); i++) r.push_back({t[i], (int)i, (int)i + 1});
  return r;
}
std::u32string chars(const Al& a) {
  std::u32string r;
  for (auto& x : a) r.push_back(x.c);
  return r;
}
const icu::Normalizer2* form(const Str& k) {
  UErrorCode st = U_ZERO_ERROR;
  return k == "NFC" ? icu::Normalizer2::getNFCInstance(st) : k == "NFD" ? icu::Normalizer2::getNFDInstance(st) : k == "NFKC" ? icu::Normalizer2::getNFKCInstance(st) : icu::Normalizer2::getNFKDInstance(st);
}
std::u32string unicode_form(const Str& k, const std::u32string& t) {
  UErrorCode st = U_ZERO_ERROR;
  icu::UnicodeString in = icu::UnicodeString::fromUTF32((const UChar32*)t.data(), t.size());
  Str o;
  form(k)->normalize(in, st).toUTF8String(o);
  return u32(o);
}
Al apply_form(const Str& k, const Al& in) {
  Al out;
  for (size_t i = 0; i < in.size();) {
    size_t j = i + 1;
    while (j < in.size() && !form(k)->hasBoundaryBefore((UChar32)in[j].c)) j++;
    std::u32string piece;
    for (size_t x = i; x < j; x++) piece.push_back(in[x].c);
    std::u32string r = unicode_form(k, piece);
    for (size_t x = 0; x < r.size(); x++)
      out.push_back(r.size() == j - i ? Ch{r[x], in[i + x].a, in[i + x].b} : Ch{r[x], in[i].a, in[j - 1].b});
    i = j;
  }
  return out;
}
bool is_space(char32_t c) { return c == '\t' || c == '\n' || c == '\r' || u_hasBinaryProperty((UChar32)c, UCHAR_WHITE_SPACE); }
bool is_ctrl(char32_t c) {
  if (c == '\t' || c == '\n' || c == '\r') return false;
  switch (u_charType((UChar32)c)) {
    case U_CONTROL_CHAR: case U_FORMAT_CHAR: case U_PRIVATE_USE_CHAR: case U_SURROGATE: case U_UNASSIGNED: return true;
    default: return false;
  }
}
bool cjk(char32_t c) {
  return (c >= 0x4E00 && c <= 0x9FFF) || (c >= 0x3400 && c <= 0x4DBF) || (c >= 0x20000 && c <= 0x2A6DF) || (c >= 0x2A700 && c <= 0x2B73F) ||
         (c >= 0x2B740 && c <= 0x2B81F) || (c >= 0x2B920 && c <= 0x2CEAF) || (c >= 0xF900 && c <= 0xFAFF) || (c >= 0x2F800 && c <= 0x2FA1F);
}

// kind: bert:CHSL (flags), strip:LR, accents, prepend, replace, NFC...
Al apply(const Case& c, const Str& kind, const Al& in) {
  Al out;
  if (kind.substr(0, 5) == "bert:") {
    Al cur = in;
    auto flag = [&](char f) { return kind.find(f, 5) != Str::npos; };
    if (flag('C')) {
      out.clear();
      for (auto x : cur) {
        if (x.c == 0 || x.c == 0xFFFD || is_ctrl(x.c)) continue;
        out.push_back({is_space(x.c) ? U' ' : x.c, x.a, x.b});
      }
      cur = out;
    }
    if (flag('H')) {
      out.clear();
      for (auto x : cur) {
        if (cjk(x.c)) out.push_back({' ', x.a, x.b});
        out.push_back(x);
        if (cjk(x.c)) out.push_back({' ', x.a, x.b});
      }
      cur = out;
    }
    if (flag('S') || flag('L')) {
      out.clear();
      for (auto x : apply_form("NFD", cur))
        if (u_charType((UChar32)x.c) != U_NON_SPACING_MARK) out.push_back(x);
      cur = out;
    }
    if (flag('L'))
      for (auto& x : cur) x.c = u_tolower((UChar32)x.c);
    return cur;
  }
  if (kind.substr(0, 6) == "strip:") {
    int s = 0, e = in.size();
    if (kind.find('L') != Str::npos)
      while (s < e && u_hasBinaryProperty((UChar32)in[s].c, UCHAR_WHITE_SPACE)) s++;
    if (kind.find('R') != Str::npos)
      while (e > s && u_hasBinaryProperty((UChar32)in[e - 1].c, UCHAR_WHITE_SPACE)) e--;
    return Al(in.begin() + s, in.begin() + e);
  }
  if (kind == "accents") {
    for (auto x : in)
      if (x.c < 0x300 || x.c > 0x36F) out.push_back(x);
    return out;
  }
  if (kind == "prepend") {
    if (in.empty()) return in;
    for (char32_t x : u32(c.S("prepend"))) out.push_back({x, in[0].a, in[0].b});
    out.insert(out.end(), in.begin(), in.end());
    return out;
  }
  if (kind == "replace") {
    std::u32string from = u32(c.S("pattern")), to = u32(c.S("content")), t = chars(in);
    for (size_t i = 0; i < in.size();) {
      if (!from.empty() && t.compare(i, from.size(), from) == 0) {
        for (char32_t x : to) out.push_back({x, in[i].a, in[i + from.size() - 1].b});
        i += from.size();
      } else {
        out.push_back(in[i++]);
      }
    }
    return out;
  }
  if (kind.substr(0, 2) == "NF") return apply_form(kind, in);
  return in;
}
std::unique_ptr<Normalizer> real(const Case& c, const Str& kind) {
  auto flag = [&](char f) { return kind.find(f, 5) != Str::npos; };
  if (kind.substr(0, 5) == "bert:") return std::make_unique<BertNormalizer>(flag('C'), flag('H'), flag('S'), flag('L'));
  if (kind.substr(0, 6) == "strip:") return std::make_unique<Strip>(flag('L'), flag('R'));
  if (kind == "accents") return std::make_unique<StripAccents>();
  if (kind == "prepend") return std::make_unique<Prepend>(c.S("prepend"));
  if (kind == "replace") return std::make_unique<Replace>(c.S("pattern"), c.S("content"));
  if (kind == "NFC") return std::make_unique<NFC>();
  if (kind == "NFD") return std::make_unique<NFD>();
  if (kind == "NFKC") return std::make_unique<NFKC>();
  return std::make_unique<NFKD>();
}
NormalizedString run(const Case& c, Al& ref) {
  NormalizedString n(wide(c.S("text")));
  ref = fresh(u32(c.S("text")));
  Strs kinds = c.L("kinds");
  if (kinds.size() > 1) {
    std::vector<std::unique_ptr<Normalizer>> seq;
    for (auto& k : kinds) seq.push_back(real(c, k));
    n = SequenceNormalizer(std::move(seq)).normalize(n);
  } else if (kinds.size() == 1) {
    n = real(c, kinds[0])->normalize(n);
  }
  for (auto& k : kinds) ref = apply(c, k, ref);
  return n;
}

Err check_text(const Case& c) {
  Al ref;
  NormalizedString n = run(c, ref);
  std::u32string want = chars(ref), got = u32w(n.normalized);
  EXPECT(want == got, esc(c.S("text")) << " becomes " << esc(u8(got)) << " instead of " << esc(u8(want)));
  g_trivial = want == u32(c.S("text"));
  return {};
}
Err check_form(const Case& c) {
  Al ref;
  NormalizedString n = run(c, ref);
  std::u32string t = u32(c.S("text"));
  for (auto& k : c.L("kinds")) t = unicode_form(k, t);
  std::u32string got = u32w(n.normalized);
  EXPECT(t == got, esc(c.S("text")) << " becomes " << esc(u8(got)) << " instead of " << esc(u8(t)));
  g_trivial = t == u32(c.S("text"));
  return {};
}

Str table(const NormalizedString& n) { return "text " + esc(narrow(n.normalized)) + " offsets " + show(n.offsets) + " ranges " + show(n.offset_ranges); }
Err well_formed(const NormalizedString& n, int len) {
  EXPECT(n.offset_ranges.size() == n.normalized.size(), n.offset_ranges.size() << " ranges for " << n.normalized.size() << " characters: " << table(n));
  int at = 0;
  for (auto& r : n.offset_ranges) {
    EXPECT(r.first == at && r.second > 0, "ranges are not consecutive: " << table(n));
    at += r.second;
  }
  EXPECT(at == (int)n.offsets.size(), "ranges do not cover the offsets: " << table(n));
  PII prev = {0, 0};
  for (auto& o : n.offsets) {
    EXPECT(o.first >= 0 && o.first < o.second && o.second <= len, "offset outside the text: " << table(n));
    EXPECT(o.first >= prev.first && o.second >= prev.second, "offsets go backwards: " << table(n));
    prev = o;
  }
  return {};
}
Err check_alignment(const Case& c) {
  Al ref;
  NormalizedString n = run(c, ref);
  int len = u32(c.S("text")).size();
  Err e = well_formed(n, len);
  if (e) return e;
  bool exact = true;
  for (auto& k : c.L("kinds"))
    if (k.substr(0, 2) == "NF" || (k.substr(0, 5) == "bert:" && (k.find('S', 5) != Str::npos || k.find('L', 5) != Str::npos))) exact = false;
  bool plain = true;  // pieces that normalization leaves alone keep their alignment as well
  for (char ch : c.S("text")) plain = plain && (unsigned char)ch < 0x80;
  if (exact || plain) {
    EXPECT(ref.size() == n.normalized.size(), "length: " << table(n));
    for (size_t i = 0; i < ref.size(); i++) {
      PII r = n.offset_ranges[i];
      PII got = {n.offsets[r.first].first, n.offsets[r.first + r.second - 1].second};
      EXPECT(got == PII(ref[i].a, ref[i].b), "character " << i << " should be aligned with " << show(std::vector<PII>{{ref[i].a, ref[i].b}}) << ": " << table(n));
    }
  } else if (ref.size() == n.normalized.size()) {
    for (size_t i = 0; i < ref.size(); i++) {
      PII r = n.offset_ranges[i];
      PII got = {n.offsets[r.first].first, n.offsets[r.first + r.second - 1].second};
      EXPECT(got.first < ref[i].b && ref[i].a < got.second, "character " << i << " should be aligned within " << show(std::vector<PII>{{ref[i].a, ref[i].b}}) << ": " << table(n));
    }
  }
  if (c.I("extract")) {  // a part of a text: the tables of the parts are put together
    std::unique_ptr<Normalizer> nm = c.L("kinds").empty() ? nullptr : real(c, c.L("kinds")[0]);
    AddedVocabulary av({});
    PreTokenizedString p = av.extract_and_normalize(nm.get(), wide(c.S("text")));
    e = well_formed(p.normalized, len);
    if (e) return e;
  }
  g_trivial = c.L("kinds").empty();
  return {};
}

Strs bert_kinds() {
  Strs r;
  for (int m = 0; m < 16; m++) r.push_back(Str("bert:") + (m & 1 ? "C" : "") + (m & 2 ? "H" : "") + (m & 4 ? "S" : "") + (m & 8 ? "L" : ""));
  return r;
}
Strs small_kinds() { return {"strip:L", "strip:R", "strip:LR", "strip:", "accents", "prepend", "replace"}; }
Strs form_kinds() { return {"NFC", "NFD", "NFKC", "NFKD"}; }

void params(Case& c, Rng& r) {
  Strs pre = {"_", "", "ab", "\xe2\x96\x81", " ", u8(char32_t(0x1F600))}, pat = {" ", "a", "aa", "ab", "", "\xc3\xa9", "  ", "b"}, con = {"_", "", "ab", "aa", "\xe2\x96\x81", "a"};
  c.s("prepend", r.pick(pre)).s("pattern", r.pick(pat)).s("content", r.pick(con));
}
void explore_over(Explorer& ex, const Strs& kinds, bool seqs) {
  Rng& r = ex.rng;
  // every character once, in context
  int step = ex.thorough ? 1 : 5;
  for (char32_t ch = 0; ch < 0x30000; ch += ch < 0x3200 || (ch >= 0xF800 && ch < 0x10000) ? step : step * 61) {
    if (ch >= 0xD800 && ch < 0xE000) continue;
    Case c;
    c.s("text", "a" + u8(ch) + " ").l("kinds", {kinds[(ch / step) % kinds.size()]}).s("prepend", "_").s("pattern", u8(ch)).s("content", "xy");
    ex.run(c);
  }
  // every character of the first three planes, many in one text
  int turn = 0;
  for (char32_t from = 0; from < 0x30000 && ex.more(); from += 64) {
    Str t;
    for (char32_t ch = from; ch < from + 64; ch++)
      if (ch < 0xD800 || ch >= 0xE000) t += u8(ch) + "a";
    for (size_t k = 0; k < kinds.size(); k++) {
      if (seqs && k != turn % kinds.size()) continue;
      ex.run(Case().s("text", t).l("kinds", {kinds[k]}).s("prepend", "_").s("pattern", "a").s("content", "xy"));
    }
    turn++;
  }
  // characters that normalization may change, on their own (in turns, one kind per turn)
  static std::vector<char32_t> alone;
  if (alone.empty()) {
    for (char32_t ch = 0; ch < 0x30000; ch++) {
      if (ch >= 0xD800 && ch < 0xE000) continue;
      std::u32string t(1, ch), d = unicode_form("NFKD", t);
      int k = u_charType(ch);
      if (d != t || u_tolower(ch) != (UChar32)ch || (k >= U_NON_SPACING_MARK && k <= U_ENCLOSING_MARK) || (k >= U_SPACE_SEPARATOR && k <= U_FORMAT_CHAR)) alone.push_back(ch);
    }
    std::shuffle(alone.begin(), alone.end(), r.g);
  }
  size_t cursor = 0;
  do {
    for (int k = 0; k < 120 && cursor < alone.size() * kinds.size(); k++, cursor++) {
      char32_t ch = alone[cursor % alone.size()];
      ex.run(Case().s("text", u8(ch)).l("kinds", {kinds[(cursor / alone.size() + cursor) % kinds.size()]}).s("prepend", "_").s("pattern", u8(ch)).s("content", "xy"));
    }
    for (int k = 0; k < 60; k++) {
      Case c;
      Strs ks = {r.pick(kinds)};
      if (seqs)
        for (int i = r.one_in(2) ? 0 : r(3); i > 0; i--) ks.push_back(r.pick(kinds));
      c.s("text", random_text(r, 10)).l("kinds", ks).i("extract", seqs && r.one_in(4));
      params(c, r);
      ex.run(c);
    }
    if (r.one_in(40)) {  // a long text
      Str t;
      for (int i = r(1500); i > 0; i--) t += random_text(r, 9);
      Case c;
      c.s("text", t).l("kinds", {r.pick(kinds)});
      params(c, r);
      ex.run(c);
    }
  } while (ex.more());
}
Strs all_kinds() {
  Strs r = bert_kinds();
  for (auto& k : small_kinds()) {
    r.push_back(k);
    r.push_back(k);
  }
  for (auto& k : form_kinds()) r.push_back(k);
  return r;
}

Reg r19({"C19", "characters of all planes in context, then random texts, with the 16 settings; trivial: the text does not change", [](Explorer& ex) { explore_over(ex, bert_kinds(), false); }, check_text});
Reg r20({"C20", "characters of all planes in context, then random texts and parameters; trivial: the text does not change", [](Explorer& ex) { explore_over(ex, small_kinds(), false); }, check_text});
Reg r21({"C21", "characters of all planes in context, then random texts and sequences of normalizers", [](Explorer& ex) { explore_over(ex, all_kinds(), true); }, check_alignment});
Reg r26({"C26", "characters of all planes in context, then random texts with combining marks; trivial: the text does not change", [](Explorer& ex) { explore_over(ex, form_kinds(), false); }, check_form});

}  // namespace
