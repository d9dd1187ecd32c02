// C17: decode.  C18: the WordPiece decoder.
#include "h.h"
#include "tokenizers/decoder.h"
#include "tokenizers/tokenizer.h"

namespace {

Str replace_all(const Str& s, const Str& from, const Str& to) {
  Str o;
  for (size_t i = 0; i < s.size();) {
    if (s.compare(i, from.size(), from) == 0) {
      o += to;
      i += from.size();
    } else {
      o += s[i++];
    }
  }
  return o;
}
Strs wordpiece_ref(const Strs& t, const Str& prefix, bool cleanup) {
  Strs r;
  for (size_t i = 0; i < t.size(); i++) {
    Str s = t[i];
    if (i) s = s.compare(0, prefix.size(), prefix) == 0 ? s.substr(prefix.size()) : " " + s;
    if (cleanup) {
      static const std::vector<std::pair<Str, Str>> table = {{" .", "."}, {" ?", "?"}, {" !", "!"}, {" ,", ","}, {" ' ", "'"}, {" n't", "n't"},
          {" 'm", "'m"}, {" do not", " don't"}, {" 's", "'s"}, {" 've", "'ve"}, {" 're", "'re"}};
      for (auto& e : table) s = replace_all(s, e.first, e.second);
    }
    r.push_back(s);
  }
  return r;
}

Err check_wp(const Case& c) {
  Strs t = c.L("tokens");
  bool cleanup = c.I("cleanup");
  Strs got = WordPieceDecoder(c.S("prefix"), cleanup).decode_chain(t), want = wordpiece_ref(t, c.S("prefix"), cleanup);
  EXPECT(got == want, "expected " << show(want) << " got " << show(got));
  g_trivial = t.size() < 2;
  return {};
}
void explore_wp(Explorer& ex) {
  Rng& r = ex.rng;
  Strs parts = {" ", ".", "?", "!", ",", "'", "n't", "'m", "do not", "'s", "'ve", "'re", "a", "##", "#", "ab", " ' ", "", " .", " do not", "\xc3\xa9", "\xe2\x96\x81"};
  Strs prefixes = {"##", "##", "#", "", "a", "\xe2\x96\x81"};
  for (auto& a : parts)
    for (auto& b : parts)
      for (auto& d : parts)
        for (int k = 0; k < 2; k++) ex.run(Case().l("tokens", {a + b, d + a, a + d + b}).s("prefix", "##").i("cleanup", k));
  do {
    for (int k = 0; k < 100; k++) {
      Strs t;
      for (int i = r(r.one_in(10) ? 40 : 6); i > 0; i--) {
        Str s;
        for (int j = r(6); j > 0; j--) s += r.one_in(12) ? random_text(r, 3) : r.one_in(20) ? Str(1, 0) : r.pick(parts);
        t.push_back(s);
      }
      ex.run(Case().l("tokens", t).s("prefix", r.pick(prefixes)).i("cleanup", r.coin()));
    }
  } while (ex.more());
}

Str config(const Case& c) {
  Str o = "{\"truncation\":null,\"padding\":null,\"added_tokens\":";
  if (c.I("added_vocabulary")) {
    o += "[";
    bool first = true;
    for (auto& t : c.L("added")) {
      o += Str(first ? "" : ",") + "{\"id\":0,\"content\":" + jstr(t.substr(1)) + ",\"single_word\":false,\"lstrip\":false,\"rstrip\":false,\"normalized\":false,\"special\":" + (t[0] == 's' ? "true" : "false") + "}";
      first = false;
    }
    o += "]";
  } else {
    o += "null";
  }
  o += ",\"normalizer\":null,\"pre_tokenizer\":null,\"post_processor\":null,\"decoder\":";
  Str d = c.S("decoder");
  o += d == "wp" ? "{\"type\":\"WordPiece\",\"prefix\":\"##\",\"cleanup\":true}" : d == "wp0" ? "{\"type\":\"WordPiece\",\"prefix\":\"##\",\"cleanup\":false}" : d == "byte" ? "{\"type\":\"ByteLevel\"}" : "null";
  o += ",\"model\":";
  if (c.I("model")) {
    o += "{\"type\":\"WordPiece\",\"unk_token\":\"[UNK]\",\"max_input_chars_per_word\":100,\"continuing_subword_prefix\":\"##\",\"vocab\":{";
    int i = 0;
    for (auto& t : c.L("vocab")) {
      o += Str(i ? "," : "") + jstr(t) + ":" + std::to_string(i * (int)c.I("step"));
      i++;
    }
    o += "}}";
  } else {
    o += "null";
  }
  return o + "}";
}

Err check_decode(const Case& c) {
  Tokenizer t("", config(c));
  Strs vocab = c.L("vocab");
  int step = c.I("step");
  std::map<int, Str> by_id, added;
  std::map<Str, int> ids;
  std::set<Str> special;
  if (c.I("model"))
    for (size_t i = 0; i < vocab.size(); i++) {
      by_id[i * step] = vocab[i];
      ids[vocab[i]] = i * step;
    }
  if (c.I("added_vocabulary")) {
    int next = vocab.size();
    std::map<Str, int> given;
    for (auto& x : c.L("added")) {
      Str content = x.substr(1);
      if (content.empty()) continue;
      if (!given.count(content)) {
        if (ids.count(content)) {
          given[content] = ids[content];
        } else {
          int mx = -1;
          for (auto& e : given) mx = std::max(mx, e.second);
          given[content] = given.empty() || mx < (int)vocab.size() ? (int)vocab.size() : mx + 1;
        }
      }
      added[given[content]] = content;
      if (x[0] == 's') special.insert(content);
    }
    (void)next;
  }
  bool skip = c.I("skip");
  Strs toks;
  std::vector<int> in;
  for (auto& s : c.L("ids")) in.push_back(atoi(s.c_str()));
  for (int id : in) {
    Str s;
    if (added.count(id))
      s = added[id];
    else if (by_id.count(id))
      s = by_id[id];
    else
      continue;
    if (skip && special.count(s)) continue;
    toks.push_back(s);
  }
  Str d = c.S("decoder");
  if (d == "wp" || d == "wp0") toks = wordpiece_ref(toks, "##", d == "wp");
  if (d == "byte") toks = ByteLevelDecoder().decode_chain(toks);
  Str want, got = t.decode(in, skip);
  for (auto& s : toks) want += s;
  EXPECT(got == want, "ids " << show(in) << " decode to " << esc(got) << " instead of " << esc(want));
  g_trivial = toks.empty();
  return {};
}
void explore_decode(Explorer& ex) {
  Rng& r = ex.rng;
  Strs texts = {"a", "##b", "c", "[SEP]", "[UNK]", ".", "<s>", "do not", "##", "x", "", Str(64, 'y'), Str(100, 'z'), Str("q\0r", 3), Str(1, 0), "##\xc3\xa9", " ", "\n", u8(U'\u0120') + "a", " a "};
  do {
    for (int k = 0; k < 20; k++) {
      Strs vocab, added, ids;
      std::set<Str> have;
      for (int i = r(r.one_in(4) ? 30 : 7); i > 0; i--) {
        Str t = r.one_in(4) ? random_text(r, 6) : r.pick(texts);
        if (have.insert(t).second) vocab.push_back(t);
      }
      for (int i = r(4); i > 0; i--) added.push_back((r.coin() ? "s" : "n") + (r.one_in(6) ? random_text(r, 6) : r.pick(texts)));
      int step = r.one_in(4) ? 2 : 1;
      bool model = !r.one_in(5);
      for (int i = r(r.one_in(6) ? 60 : 8); i > 0; i--) ids.push_back(std::to_string(r.one_in(8) ? r.in(-3, 40) : r((int)vocab.size() * step + 4)));
      ex.run(Case().l("vocab", vocab).l("added", added).i("step", step).i("model", model).i("added_vocabulary", model && r.coin()).s("decoder", r.pick(Strs{"", "wp", "wp0", "byte"})).l("ids", ids).i("skip", r.coin()));
    }
  } while (ex.more());
}

Reg r17({"C17", "random vocabularies, added tokens, decoders and id lists through a Tokenizer built from JSON; trivial: no id maps to a token", explore_decode, check_decode});
Reg r18({"C18", "all triples of awkward parts, then random token lists, prefixes and cleanup; trivial: fewer than two tokens", explore_wp, check_wp});

}  // namespace
