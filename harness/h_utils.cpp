// C01, C02: truncation.  C03: padding.
#include "h.h"
#include "tokenizers/utils.h"

namespace {

Encoding slice(const Encoding& e, int a, int b) {
  Encoding r;
  for (int i = a; i < b; i++) {
    r.ids.push_back(e.ids[i]);
    r.type_ids.push_back(e.type_ids[i]);
    r.tokens.push_back(e.tokens[i]);
    r.words.push_back(e.words[i]);
    r.offsets.push_back(e.offsets[i]);
    r.special_tokens_mask.push_back(e.special_tokens_mask[i]);
    r.attention_mask.push_back(e.attention_mask[i]);
  }
  return r;
}

Encoding tree(int n, int salt, int over) {
  Encoding e = make_encoding(n, salt);
  for (int i = 0; i < over; i++) {
    Encoding o = make_encoding((n + 3 * i + 1) % 7, salt + i + 1);
    if (i % 2) o.overflowing.push_back(make_encoding(2 + i, salt + 10 + i));
    e.overflowing.push_back(o);
  }
  return e;
}

struct Tr {
  Encoding in;
  std::optional<Encoding> out;
  int n, m, cap, stride;
  bool left;
};
Tr run_truncation(const Case& c) {
  Tr t;
  t.n = c.I("length");
  t.cap = c.I("max_length");
  t.stride = c.I("stride");
  t.left = c.S("direction") == "Left";
  int reserved = c.I("reserved");
  t.m = std::max(t.cap - reserved, 0);
  t.in = tree(t.n, c.I("salt"), c.I("overflowing"));
  Truncation tr(c.S("direction"), c.S("strategy"), t.cap, t.stride);
  try {
    t.out = reserved ? tr.truncate_encoding(t.in, reserved) : tr.truncate_encoding(t.in);
  } catch (const std::invalid_argument&) {
  }
  return t;
}

Err check_main(const Case& c) {
  Tr t = run_truncation(c);
  if (t.n <= t.m && !(t.m == 0 && t.n == 0)) {
    EXPECT(t.out, "rejected although nothing has to be cut");
    return same_encoding(t.in, *t.out, "an encoding that fits");
  }
  if (t.m == 0) {
    if (t.n == 0) {
      g_trivial = true;
      EXPECT(t.out && t.out->ids.empty(), "empty encoding");
      return {};
    }
    EXPECT(t.out, "rejected");
    Encoding want;
    want.overflowing.push_back(t.in);
    return same_encoding(want, *t.out, "max_length 0");
  }
  if (t.stride >= t.m) {
    EXPECT(!t.out, "stride >= max_length is not rejected");
    return {};
  }
  EXPECT(t.out, "rejected although stride < max_length");
  Encoding got = *t.out;
  got.overflowing.clear();
  Encoding want = t.left ? slice(t.in, t.n - t.m, t.n) : slice(t.in, 0, t.m);
  return same_encoding(want, got, "main encoding");
}

Err check_windows(const Case& c) {
  Tr t = run_truncation(c);
  if (t.n <= t.m || t.m == 0 || t.stride >= t.m) {
    g_trivial = true;
    return {};
  }
  EXPECT(t.out, "rejected although stride < max_length");
  std::vector<Encoding> w;
  Encoding main = *t.out;
  w.push_back(main);
  w[0].overflowing.clear();
  for (auto& o : main.overflowing) w.push_back(o);
  int step = t.m - t.stride;
  std::vector<PII> want;
  for (int k = 0;; k++) {
    int a = k * step, b = std::min(a + t.m, t.n);
    want.push_back(t.left ? PII(t.n - b, t.n - a) : PII(a, b));
    if (b == t.n) break;
  }
  EXPECT(w.size() == want.size(), "expected " << want.size() << " windows " << show(want) << ", got " << w.size());
  for (size_t k = 0; k < w.size(); k++) {
    Err e = same_encoding(slice(t.in, want[k].first, want[k].second), w[k],
                          "window " + std::to_string(k) + " should be tokens " + show(std::vector<PII>{want[k]}));
    if (e) return e;
  }
  return {};
}

void explore_truncation(Explorer& ex) {
  auto one = [&](int n, int m, int st, bool left, bool first, int over, int res) {
    ex.run(Case().i("length", n).i("max_length", m).i("stride", st).s("direction", left ? "Left" : "Right")
               .s("strategy", first ? "OnlyFirst" : "LongestFirst").i("overflowing", over).i("salt", n % 5).i("reserved", res));
  };
  int N = ex.thorough ? 16 : 11;
  for (int n = 0; n <= N; n++)
    for (int m = 0; m <= N; m++)
      for (int st = 0; st <= m + 1; st++)
        for (int k = 0; k < 4; k++) one(n, m, st, k & 1, k & 2, 0, 0);
  for (int n = 0; n <= 6; n++)
    for (int m = 0; m <= 6; m++)
      for (int k = 0; k < 4; k++)
        for (int r = 0; r <= 3; r++) one(n, m, m > 1 ? m / 3 : 0, k & 1, k & 2, k, r);
  while (ex.more()) {
    int m = ex.rng(40);
    one(ex.rng(150), m, ex.rng(m + 2), ex.rng.coin(), ex.rng.coin(), ex.rng.one_in(4) ? ex.rng(3) : 0, ex.rng.one_in(3) ? ex.rng(4) : 0);
    if (ex.rng.one_in(8)) {
      // long windows with a long overlap
      int w = 1 + ex.rng(300), n = w + ex.rng(400), st = ex.rng(w);
      if (n / (w - st) > 60) st = std::max(0, w - n / 60 - 1);
      one(n, w, st, ex.rng.coin(), ex.rng.coin(), 0, 0);
    }
    if (ex.rng.one_in(200)) one(ex.rng(3000), ex.rng(600), ex.rng(30), ex.rng.coin(), ex.rng.coin(), 0, 0);
  }
}

// padding
Encoding pad_ref(const Encoding& e, int target, const Case& c) {
  Encoding r = e;
  r.overflowing.clear();
  for (auto& o : e.overflowing) r.overflowing.push_back(pad_ref(o, target, c));
  Encoding p;
  for (int i = (int)e.ids.size(); i < target; i++) {
    p.ids.push_back(c.I("pad_id"));
    p.type_ids.push_back(c.I("pad_type_id"));
    p.tokens.push_back(c.S("pad_token"));
    p.words.push_back(0);
    p.offsets.push_back({0, 0});
    p.special_tokens_mask.push_back(1);
    p.attention_mask.push_back(0);
  }
  bool left = c.S("direction") == "Left";
  auto join = [&](auto& a, const auto& x) { a.insert(left ? a.begin() : a.end(), x.begin(), x.end()); };
  join(r.ids, p.ids);
  join(r.type_ids, p.type_ids);
  join(r.tokens, p.tokens);
  join(r.words, p.words);
  join(r.offsets, p.offsets);
  join(r.special_tokens_mask, p.special_tokens_mask);
  join(r.attention_mask, p.attention_mask);
  return r;
}

Err check_pad(const Case& c) {
  int n = c.I("length"), mult = c.I("multiple");
  Encoding in = tree(n, c.I("salt"), c.I("overflowing"));
  Padding pad(c.S("direction"), c.S("strategy"), c.I("fixed_size"), c.I("pad_id"), c.I("pad_type_id"), c.S("pad_token"), mult);
  Encoding got = pad.pad_encoding(in);
  int target = c.S("strategy") == "Fixed" ? c.I("fixed_size") : n;
  if (mult > 0 && target % mult) target += mult - target % mult;
  if (target <= n && in.overflowing.empty()) g_trivial = true;
  return same_encoding(pad_ref(in, target, c), got, "padded");
}

void explore_pad(Explorer& ex) {
  auto one = [&](int n, bool fixed, int size, int mult, bool left, int over, int salt) {
    ex.run(Case().i("length", n).s("strategy", fixed ? "Fixed" : "BatchLongest").i("fixed_size", size).i("multiple", mult)
               .s("direction", left ? "Left" : "Right").i("overflowing", over).i("pad_id", salt * 13 + 1).i("pad_type_id", salt % 4)
               .s("pad_token", salt % 3 ? "[PAD]" : "").i("salt", salt));
  };
  for (int n = 0; n <= 7; n++)
    for (int size = 0; size <= 9; size++)
      for (int mult = 0; mult <= 5; mult++)
        for (int k = 0; k < 4; k++)
          for (int over = 0; over <= 3; over++) one(n, k & 1, size, mult, k & 2, over, n + over);
  while (ex.more()) {
    one(ex.rng(60), ex.rng.coin(), ex.rng(80), ex.rng(20), ex.rng.coin(), ex.rng(5), ex.rng(50));
    if (ex.rng.one_in(20)) one(ex.rng.one_in(3) ? 0 : ex.rng(300), !ex.rng.one_in(3), ex.rng(1500), ex.rng(400), ex.rng.coin(), ex.rng(3), ex.rng(50));
  }
}

Reg r1({"C01", "all lengths, max_length, stride up to a bound, directions, strategies, then random larger ones; trivial: the empty encoding",
        explore_truncation, check_main});
Reg r2({"C02", "all lengths, max_length, stride up to a bound, directions, strategies, then random larger ones; non-trivial: something is cut into windows",
        explore_truncation, check_windows});
Reg r3({"C03", "all lengths, targets, multiples, overflow trees up to a bound, then random ones; trivial: nothing to pad", explore_pad, check_pad});

}  // namespace
