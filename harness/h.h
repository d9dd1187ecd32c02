// Harness: explores a property on the real code and replays single cases.
#pragma once
#include <unicode/normalizer2.h>
#include <unicode/uchar.h>
#include <unicode/unistr.h>

#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#include "simdjson.h"
#include "tokenizers/common.h"

using Str = std::string;
using Strs = std::vector<std::string>;
using PII = std::pair<int, int>;

// A case is a list of named fields; it is what is explored, written and replayed.
struct Case {
  std::vector<std::pair<Str, Str>> kv;
  Case& s(const Str& k, const Str& v) {
    for (auto& e : kv)
      if (e.first == k) {
        e.second = v;
        return *this;
      }
    kv.push_back({k, v});
    return *this;
  }
  Case& i(const Str& k, long v) { return s(k, std::to_string(v)); }
  Case& l(const Str& k, const Strs& v);
  bool has(const Str& k) const {
    for (auto& e : kv)
      if (e.first == k) return true;
    return false;
  }
  Str S(const Str& k) const {
    for (auto& e : kv)
      if (e.first == k) return e.second;
    return "";
  }
  long I(const Str& k) const {
    Str v = S(k);
    return v.empty() ? 0 : atol(v.c_str());
  }
  Strs L(const Str& k) const;
  Str text() const;
};
Case parse_case(const Str& text);

struct Rng {
  std::mt19937_64 g;
  int operator()(int n) { return n <= 0 ? 0 : (int)(g() % (uint64_t)n); }  // 0..n-1
  int in(int a, int b) { return a + (*this)(b - a + 1); }
  bool coin() { return g() & 1; }
  bool one_in(int n) { return (*this)(n) == 0; }
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[(*this)((int)v.size())];
  }
};

struct Explorer {
  Rng rng;
  bool thorough = false;
  double deadline = 0;
  std::function<void(const Case&)> run;  // exits the process on a failure
  bool more();                           // time left?
  bool hunting = false;                  // more time than usual: the proof failed or is undecided
};

using Err = std::optional<Str>;
struct Prop {
  Str id;
  Str rule;
  std::function<void(Explorer&)> explore;
  std::function<Err(const Case&)> check;
};
std::vector<Prop>& props();
struct Reg {
  Reg(Prop p) { props().push_back(std::move(p)); }
};
extern bool g_trivial;  // a check sets it when the case did not exercise the property

#define FAIL(msg)            \
  do {                       \
    std::ostringstream o_;   \
    o_ << msg;               \
    return Err(o_.str());    \
  } while (0)
#define EXPECT(c, msg) \
  do {                 \
    if (!(c)) FAIL(msg); \
  } while (0)

// ---- texts ----
std::u32string u32(const Str& utf8);
Str u8(const std::u32string& s);
Str u8(char32_t c);
std::wstring wide(const Str& utf8);
std::wstring wide(const std::u32string& s);
Str narrow(const std::wstring& s);
std::u32string u32w(const std::wstring& s);
Str esc(const Str& s);
Str show(const Strs& v);
Str show(const std::vector<int>& v);
Str show(const std::vector<PII>& v);
Str show_words(const std::vector<std::optional<int>>& v);

// texts over a small alphabet chosen to be awkward; all planes
Str random_text(Rng& r, int max_chars, int style = -1);
Strs random_vocab_texts(Rng& r);

// ---- encodings ----
Encoding make_encoding(int n, int salt);  // n tokens with distinct values
Err same_encoding(const Encoding& want, const Encoding& got, const Str& where);
Str show(const Encoding& e);
bool parallel(const Encoding& e);
std::vector<PII> all_alike(const Encoding& e);

// ---- JSON ----
Str jstr(const Str& s);
struct Json {  // parsed on construction; keeps its buffers alive
  simdjson::ondemand::parser parser;
  simdjson::padded_string data;
  simdjson::ondemand::document doc;
  explicit Json(const Str& s) : data(s) { doc = parser.iterate(data); }
  simdjson::ondemand::object object() { return doc.get_object(); }
  simdjson::ondemand::array array() { return doc.get_array(); }
};
