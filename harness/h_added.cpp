// C15: ids of added tokens.  C16: extraction.
#include "h.h"
#include "tokenizers/added_vocabulary.h"
#include "tokenizers/model.h"
#include "tokenizers/tokenizer.h"

namespace {

// a token is written "flags|content"; flags: s special, w single word, l lstrip, r rstrip, n normalized
AddedToken token_of(const Str& s) {
  size_t bar = s.find('|');
  Str f = s.substr(0, bar);
  auto h = [&](char c) { return f.find(c) != Str::npos; };
  return AddedToken(0, s.substr(bar + 1), h('w'), h('l'), h('r'), h('n'), h('s'));
}
std::unordered_map<Str, int> vocab_of(const Strs& l) {
  std::unordered_map<Str, int> v;
  for (auto& t : l)
    if (!v.count(t)) {
      int n = v.size();
      v[t] = n;
    }
  return v;
}

Err check_ids(const Case& c) {
  auto vocab = vocab_of(c.L("vocab"));
  int step = c.has("step") ? c.I("step") : 1;  // 0: no model, 2 or more: ids with holes
  for (auto& e : vocab) e.second *= step;
  if (step == 0) vocab.clear();
  WordPiece wordpiece(vocab, "[UNK]", 100, "##");
  Model* model = step ? &wordpiece : nullptr;
  AddedVocabulary av({});
  std::map<Str, int> ids;
  std::map<int, Str> last;
  std::set<Str> special;
  int next = vocab.size();
  Strs calls = c.L("calls");
  for (size_t k = 0; k < calls.size(); k++) {
    Case inner;
    inner.s("x", calls[k].substr(1));
    Strs toks = inner.L("x");
    std::vector<AddedToken> list;
    int counted = 0;
    for (auto& t : toks) list.push_back(token_of(t));
    for (auto& t : list) {
      if (t.content.empty()) continue;
      counted++;
      if (t.special) special.insert(t.content);
      if (!ids.count(t.content)) {
        if (vocab.count(t.content)) {
          ids[t.content] = vocab[t.content];
        } else {
          ids[t.content] = next;
        }
        next = std::max(next, ids[t.content] + 1);
      }
      last[ids[t.content]] = t.content;
    }
    int got = calls[k][0] == 's' ? av.add_special_tokens(list, model, nullptr) : av.add_tokens(list, model, nullptr);
    EXPECT(got == counted, "call " << k << " returns " << got << " instead of " << counted);
    for (int i = -2; i < next + 3; i++) {
      auto t = av.id_to_token(i);
      auto want = last.count(i) ? std::optional<Str>(last[i]) : std::nullopt;
      EXPECT(t == want, "after call " << k << " id " << i << " is " << (t ? esc(*t) : "nothing") << " instead of " << (want ? esc(*want) : "nothing"));
    }
    for (auto& t : list) {
      EXPECT(av.is_special_token(t.content) == (special.count(t.content) > 0), esc(t.content) << " special: " << av.is_special_token(t.content));
    }
    for (auto& e : ids) EXPECT(av.is_special_token(e.first) == (special.count(e.first) > 0), esc(e.first) << " special: " << av.is_special_token(e.first));
  }
  // the tokens given to the constructor are added when the tokenizer is built
  if (c.I("tokenizer") && step == 1) {
    Str cfg = "{\"truncation\":null,\"padding\":null,\"added_tokens\":[";
    Case inner;
    if (!calls.empty()) inner.s("x", calls[0].substr(1));
    bool first = true;
    std::map<Str, int> ids2;
    int nx = vocab.size();
    for (auto& t : inner.L("x")) {
      AddedToken a = token_of(t);
      cfg += Str(first ? "" : ",") + "{\"id\":0,\"content\":" + jstr(a.content) + ",\"single_word\":false,\"lstrip\":false,\"rstrip\":false,\"normalized\":false,\"special\":" + (a.special ? "true" : "false") + "}";
      first = false;
      if (!a.content.empty() && !ids2.count(a.content)) ids2[a.content] = vocab.count(a.content) ? vocab[a.content] : nx++;
    }
    cfg += "],\"normalizer\":null,\"pre_tokenizer\":null,\"post_processor\":null,\"decoder\":null,\"model\":{\"type\":\"WordPiece\",\"unk_token\":\"[UNK]\",\"max_input_chars_per_word\":100,\"continuing_subword_prefix\":\"##\",\"vocab\":{";
    first = true;
    for (auto& e : vocab) {
      cfg += Str(first ? "" : ",") + jstr(e.first) + ":" + std::to_string(e.second);
      first = false;
    }
    cfg += "}}}";
    Tokenizer t("", cfg);
    for (auto& e : ids2) {
      EXPECT(t.decode({e.second}, false) == e.first, "id " << e.second << " decodes to " << esc(t.decode({e.second}, false)) << " instead of " << esc(e.first));
      Encoding enc = t.encode(wide(e.first), false);
      EXPECT(enc.ids == std::vector<int>{e.second}, esc(e.first) << " encodes to " << show(enc.ids) << " instead of " << e.second);
    }
  }
  return {};
}

void explore_ids(Explorer& ex) {
  Rng& r = ex.rng;
  Strs pool = {"a", "b", "<s>", "</s>", "[X]", "x y", "", "ab", "\xc3\xa9"};
  do {
    for (int k = 0; k < 30; k++) {
      Strs vocab, calls;
      for (int i = r(6); i > 0; i--) vocab.push_back(r.pick(pool));
      if (r.coin()) vocab.push_back("zz");
      for (int i = r.in(1, 4); i > 0; i--) {
        Strs l;
        for (int j = r(5); j > 0; j--) l.push_back(Str(r.one_in(3) ? "s" : "") + (r.coin() ? "n" : "") + "|" + r.pick(pool));
        Case c;
        c.l("x", l);
        calls.push_back((r.coin() ? "s" : "a") + c.S("x"));
      }
      ex.run(Case().l("vocab", vocab).l("calls", calls).i("tokenizer", r.one_in(8)).i("step", r.one_in(8) ? 0 : r.one_in(4) ? r.in(2, 3) : 1));
    }
  } while (ex.more());
}

// ---- extraction ----
struct Seg {
  PII span;
  int token;  // index or -1
};
bool word_char(char32_t c) {
  UErrorCode st = U_ZERO_ERROR;
  static icu::UnicodeSet w(icu::UnicodeString("[\\p{Alphabetic}\\p{M}\\p{Nd}\\p{Pc}]"), st);
  return w.contains((UChar32)c);
}
std::vector<Seg> extract_ref(const std::u32string& t, const std::vector<AddedToken>& toks, const std::vector<int>& which) {
  std::vector<Seg> r;
  int n = t.size(), start_offset = 0;
  std::vector<std::tuple<int, int, int>> m;
  for (int i = 0; i < n;) {
    int best = 0, id = -1;
    for (int k : which) {
      std::u32string w = u32(toks[k].content);
      if ((int)w.size() > best && t.compare(i, w.size(), w) == 0) {
        best = w.size();
        id = k;
      }
    }
    if (best) {
      m.push_back({i, i + best, id});
      i += best;
    } else {
      i++;
    }
  }
  for (auto [a, b, k] : m) {
    if (a < start_offset) continue;
    if (toks[k].single_word && ((a > 0 && word_char(t[a - 1])) || (b < n && word_char(t[b])))) continue;
    if (toks[k].lstrip)
      while (a > start_offset && u_isUWhiteSpace((UChar32)t[a - 1])) a--;
    if (toks[k].rstrip)
      while (b < n && u_isUWhiteSpace((UChar32)t[b])) b++;
    if (a > start_offset) r.push_back({{start_offset, a}, -1});
    r.push_back({{a, b}, k});
    start_offset = b;
  }
  if (start_offset < n) r.push_back({{start_offset, n}, -1});
  return r;
}

Err check_extract(const Case& c) {
  Str text = c.S("text");
  std::u32string t = u32(text);
  std::vector<AddedToken> toks;
  std::set<Str> seen;
  for (auto& s : c.L("tokens")) {
    AddedToken a = token_of(s);
    if (!a.content.empty() && seen.insert(a.content).second) toks.push_back(a);
  }
  WordPiece model({{"[UNK]", 0}, {"a", 1}}, "[UNK]", 100, "##");
  AddedVocabulary av({});
  av.add_tokens(toks, &model, nullptr);
  std::vector<int> ids(toks.size());
  int next = 2;
  for (size_t k = 0; k < toks.size(); k++) ids[k] = toks[k].content == "a" ? 1 : toks[k].content == "[UNK]" ? 0 : next++;
  std::unique_ptr<Normalizer> norm;
  Str nk = c.S("normalizer");
  if (nk == "lower") norm = std::make_unique<BertNormalizer>(false, false, false, true);
  if (nk == "bert") norm = std::make_unique<BertNormalizer>(true, true, true, true);
  if (nk == "strip") norm = std::make_unique<Strip>(true, true);
  if (nk == "prepend") norm = std::make_unique<Prepend>("_");
  if (nk == "replace") norm = std::make_unique<Replace>(" ", "__");
  std::vector<int> raw, nrm;
  for (size_t k = 0; k < toks.size(); k++) (toks[k].normalized ? nrm : raw).push_back(k);
  struct Want {
    Str text;
    PII offsets;
    int token;
  };
  std::vector<Want> want;
  std::u32string whole;
  for (auto& s : extract_ref(t, toks, raw)) {
    std::u32string part = t.substr(s.span.first, s.span.second - s.span.first);
    int at = whole.size();
    if (s.token >= 0) {
      want.push_back({u8(part), {at, at + (int)part.size()}, s.token});
      whole += part;
      continue;
    }
    std::u32string p2 = part;
    if (norm) p2 = u32w(norm->normalize(NormalizedString(wide(part))).normalized);
    for (auto& s2 : extract_ref(p2, toks, nrm)) want.push_back({u8(p2.substr(s2.span.first, s2.span.second - s2.span.first)), {at + s2.span.first, at + s2.span.second}, s2.token});
    whole += p2;
  }
  PreTokenizedString got = av.extract_and_normalize(norm.get(), wide(text));
  Str w, g;
  for (auto& x : want) w += esc(x.text) + show(std::vector<PII>{x.offsets}) + (x.token >= 0 ? "=" + std::to_string(ids[x.token]) : "") + " ";
  for (auto& s : got.splits) {
    g += esc(s.normalized) + show(std::vector<PII>{s.offsets});
    for (auto& k : s.tokens) {
      g += "=" + std::to_string(k.id);
      EXPECT(k.value == s.normalized, "token text " << esc(k.value) << " in segment " << esc(s.normalized));
      EXPECT(k.offsets == PII(0, (int)u32(s.normalized).size()), "token offsets " << show(std::vector<PII>{k.offsets}) << " in segment " << esc(s.normalized));
    }
    g += " ";
  }
  if (t.empty() && got.splits.size() == 1 && got.splits[0].normalized.empty()) g = "";
  EXPECT(w == g, "text " << esc(text) << ": expected " << w << "got " << g);
  EXPECT(u32w(got.normalized.normalized) == whole, "normalized text is " << esc(narrow(got.normalized.normalized)) << " instead of " << esc(u8(whole)));
  g_trivial = want.size() <= 1;
  return {};
}

void explore_extract(Explorer& ex) {
  Rng& r = ex.rng;
  Strs contents = {"a", "ab", "b", "<s>", "<s", " x", "x ", "  ", "A", "\xc3\xa9", "aa", "aba", u8(char32_t(0x1F600)), "_", "s>"};
  Strs norms = {"", "", "lower", "bert", "strip", "prepend", "replace"};
  do {
    for (int k = 0; k < 40; k++) {
      Strs toks, text_parts = {"a", "b", " ", "x", "<s>", "A", "c", ".", "\t", "\xc3\xa9", u8(char32_t(0x1F600)), "1", "_"};
      for (int i = r(5); i > 0; i--) {
        Str f;
        if (r.one_in(4)) f += "s";
        if (r.one_in(3)) f += "w";
        if (r.one_in(3)) f += "l";
        if (r.one_in(3)) f += "r";
        if (r.one_in(3)) f += "n";
        toks.push_back(f + "|" + r.pick(contents));
      }
      Str t;
      for (int i = r(10); i > 0; i--) t += r.one_in(12) ? random_text(r, 3) : r.coin() && !toks.empty() ? token_of(r.pick(toks)).content : r.pick(text_parts);
      ex.run(Case().l("tokens", toks).s("text", t).s("normalizer", r.pick(norms)));
    }
  } while (ex.more());
}

Reg r15({"C15", "random call sequences of add_tokens / add_special_tokens over small contents and vocabularies", explore_ids, check_ids});
Reg r16({"C16", "random added tokens (all flags) and texts made of their contents, spaces and other characters; trivial: at most one segment", explore_extract, check_extract});

}  // namespace
