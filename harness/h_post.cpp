// C05: template post-processing.  C07: byte-level offset trimming.
#include "h.h"
#include "tokenizers/post_processor.h"

namespace {

struct Tmpl {
  std::vector<std::pair<Str, Piece>> single, pair;
  std::vector<SpecialToken> specials;
};
// template field: list of "S:A:0" / "T:id:type"; specials: list of "id;n"
Tmpl make_template(const Case& c) {
  Tmpl t;
  for (auto& p : c.L("template")) {
    size_t a = p.find(':'), b = p.rfind(':');
    t.single.push_back({p[0] == 'S' ? "Sequence" : "SpecialToken", Piece(p.substr(a + 1, b - a - 1), atoi(p.c_str() + b + 1))});
  }
  t.pair = {{"SpecialToken", Piece("[X]", 3)}, {"Sequence", Piece("A", 1)}, {"Sequence", Piece("B", 2)}};
  int k = 0;
  for (auto& s : c.L("specials")) {
    size_t a = s.find(';');
    int n = atoi(s.c_str() + a + 1);
    std::vector<int> ids;
    Strs toks;
    for (int i = 0; i < n; i++) {
      ids.push_back(900 + 10 * k + i);
      toks.push_back(s.substr(0, a) + "#" + std::to_string(k) + "." + std::to_string(i));
    }
    t.specials.push_back(SpecialToken(s.substr(0, a), ids, toks));
    k++;
  }
  return t;
}

void append(Encoding& r, const Encoding& p) {
  auto j = [](auto& a, const auto& b) { a.insert(a.end(), b.begin(), b.end()); };
  j(r.ids, p.ids);
  j(r.type_ids, p.type_ids);
  j(r.tokens, p.tokens);
  j(r.words, p.words);
  j(r.offsets, p.offsets);
  j(r.special_tokens_mask, p.special_tokens_mask);
  j(r.attention_mask, p.attention_mask);
}

Encoding template_ref(const Tmpl& t, const Encoding& e, bool add) {
  Encoding r, cur = e;
  for (auto& p : t.single) {
    if (p.first == "Sequence") {
      if (p.second.id == "A")
        for (int& x : cur.type_ids) x = p.second.type_id;
      append(r, cur);
    } else if (add) {
      for (auto& s : t.specials) {
        if (s.id != p.second.id) continue;
        for (size_t i = 0; i < s.ids.size(); i++) {
          r.ids.push_back(s.ids[i]);
          r.tokens.push_back(s.tokens[i]);
          r.type_ids.push_back(p.second.type_id);
          r.words.push_back(std::nullopt);
          r.offsets.push_back({0, 0});
          r.special_tokens_mask.push_back(1);
          r.attention_mask.push_back(1);
        }
        break;
      }
    }
  }
  for (auto& o : e.overflowing) r.overflowing.push_back(template_ref(t, o, add));
  return r;
}

Err check_template(const Case& c) {
  Tmpl t = make_template(c);
  TemplateProcessing tp(t.single, t.pair, t.specials);
  Encoding in = make_encoding(c.I("length"), 2);
  for (int i = 0; i < c.I("overflowing"); i++) {
    // some of the arrays may be those of the main encoding
    int same = c.has("same") ? c.I("same") : 0;
    Encoding o = make_encoding(same ? c.I("length") : (c.I("length") + i) % 5, 5 + i);
    if (same & 1) o.ids = in.ids;
    if (same & 2) o.tokens = in.tokens;
    if (same & 4) o.type_ids = in.type_ids;
    if (same & 8) o.words = in.words;
    if (same & 16) o.offsets = in.offsets;
    if (same & 32) o.special_tokens_mask = in.special_tokens_mask;
    if (same & 64) o.attention_mask = in.attention_mask;
    in.overflowing.push_back(o);
    if (i == 1) in.overflowing[1].overflowing.push_back(make_encoding(2, 9));
  }
  bool add = c.I("add_special_tokens");
  Encoding got = tp.process(in, add);
  Encoding want = template_ref(t, in, add);
  Err e = same_encoding(want, got, "processed");
  if (e) return e;
  int seqs = 0;
  for (auto& p : t.single) seqs += p.first == "Sequence";
  int added = (int)template_ref(t, in, true).ids.size() - seqs * (int)in.ids.size();
  const PostProcessor& base = tp;
  EXPECT(base.added_tokens() == added, "announces " << base.added_tokens() << " special tokens, adds " << added);
  return {};
}

void explore_template(Explorer& ex) {
  std::vector<Strs> templates = {{"T:[CLS]:0", "S:A:0", "T:[SEP]:0"}, {"S:A:1"}, {}, {"T:[CLS]:2"}, {"S:B:3", "T:[SEP]:1"},
      {"S:A:1", "S:A:2"}, {"S:B:1", "S:A:2", "S:B:4"}, {"T:[NO]:0", "S:A:0", "T:[CLS]:1", "T:[CLS]:2"}, {"T:[SEP]:1", "T:[CLS]:0", "S:A:7", "T:[SEP]:3"}};
  std::vector<Strs> specials = {{"[CLS];1", "[SEP];1"}, {"[CLS];2", "[SEP];3"}, {"[SEP];0", "[CLS];1"}, {"[CLS];1", "[CLS];2", "[SEP];1"}, {}};
  for (auto& t : templates)
    for (auto& s : specials)
      for (int n = 0; n <= 4; n++)
        for (int o = 0; o <= 3; o++)
          for (int a = 0; a < 2; a++)
            ex.run(Case().l("template", t).l("specials", s).i("length", n).i("overflowing", o).i("add_special_tokens", a));
  Strs names = {"[CLS]", "[SEP]", "[NO]", "A", "B", ""};
  while (ex.more()) {
    Strs t, s;
    for (int i = ex.rng.one_in(8) ? ex.rng(40) : ex.rng(6); i > 0; i--)
      t.push_back((ex.rng.coin() ? "S:" + Str(ex.rng.coin() ? "A" : ex.rng.coin() ? "B" : "C") : "T:" + ex.rng.pick(names)) + ":" + std::to_string(ex.rng(5)));
    for (int i = ex.rng.one_in(8) ? ex.rng(20) : ex.rng(5); i > 0; i--) s.push_back(ex.rng.pick(names) + ";" + std::to_string(ex.rng(4)));
    ex.run(Case().l("template", t).l("specials", s).i("length", ex.rng(9)).i("overflowing", ex.rng(4)).i("add_special_tokens", ex.rng(2)).i("same", ex.rng.coin() ? 0 : ex.rng.coin() ? 127 - (1 << ex.rng(7)) : ex.rng(128)));
  }
}

// trimming
std::pair<int, int> trim_ref(const Str& token, PII o, int i, bool prefix) {
  std::u32string t = u32(token);
  int L = 0, T = 0, n = t.size();
  while (L < n && t[L] == 0x120) L++;
  while (T < n && t[n - 1 - T] == 0x120) T++;
  if (L == 1 && prefix && (i == 0 || o.first == 0)) L = 0;
  int a = o.first, b = o.second;
  a = std::min(a + L, b);
  if (T > 0 && b >= T) b = std::max(b - T, a);
  return {a, b};
}

Encoding trim_encoding(const Case& c, const Str& k) {
  Strs toks = c.L(k + "tokens"), offs = c.L(k + "offsets");
  Encoding e = make_encoding(toks.size(), c.has("salt") ? c.I("salt") : 1);
  e.tokens = toks;
  for (size_t i = 0; i < offs.size() && i < e.offsets.size(); i++) e.offsets[i] = {atoi(offs[i].c_str()), atoi(offs[i].c_str() + offs[i].find(',') + 1)};
  return e;
}

Err check_trim(const Case& c) {
  Encoding in = trim_encoding(c, "");
  if (c.has("over_tokens")) in.overflowing.push_back(trim_encoding(c, "over_"));
  bool prefix = c.I("add_prefix_space"), trim = c.I("trim_offsets");
  static std::map<int, std::unique_ptr<ByteLevelProcessing>> cache;
  auto& pp = cache[prefix * 2 + trim];
  if (!pp) pp = std::make_unique<ByteLevelProcessing>(prefix, trim);
  ByteLevelProcessing& p = *pp;
  Encoding got = p.process(in, c.I("add_special_tokens"));
  Encoding want = in;
  if (trim) {
    for (size_t i = 0; i < in.ids.size(); i++) want.offsets[i] = trim_ref(in.tokens[i], in.offsets[i], i, prefix);
    for (auto& o : want.overflowing)
      for (size_t i = 0; i < o.ids.size(); i++) o.offsets[i] = trim_ref(o.tokens[i], o.offsets[i], i, prefix);
    g_trivial = want.offsets == in.offsets;
  }
  return same_encoding(want, got, "processed");
}

void explore_trim(Explorer& ex) {
  Strs parts = {u8(U'\u0120'), "a", u8(U'\u00e9'), u8(U'\u0120') + u8(U'\u0120'), "", u8(char32_t(0x1F600)), u8(U'\u0121'), " ", u8(U'\u010a')};
  auto token = [&] {
    Str t;
    for (int k = ex.rng(4); k >= 0; k--) t += ex.rng.pick(parts);
    return t;
  };
  auto fill = [&](Case& c, const Str& k) {
    Strs toks, offs;
    for (int n = ex.rng(5); n > 0; n--) {
      Str t = token();
      int a = ex.rng.one_in(3) ? 0 : ex.rng(12), len = u32(t).size();
      int b = a + (ex.rng.one_in(4) ? ex.rng(8) : len);
      toks.push_back(t);
      offs.push_back(std::to_string(a) + "," + std::to_string(b));
    }
    c.l(k + "tokens", toks).l(k + "offsets", offs);
  };
  do {
    for (int k = 0; k < 400; k++) {
      Case c;
      fill(c, "");
      if (ex.rng.one_in(3)) fill(c, "over_");
      c.i("add_prefix_space", ex.rng(2)).i("salt", ex.rng(9)).i("trim_offsets", !ex.rng.one_in(6)).i("add_special_tokens", ex.rng(2));
      ex.run(c);
    }
  } while (ex.more());
}

Reg r5({"C05", "a grid of templates, special-token tables, lengths and overflow, then random templates", explore_template, check_template});
Reg r7({"C07", "random tokens made of space and other characters with random offsets; non-trivial: some offset changes", explore_trim, check_trim});

}  // namespace
