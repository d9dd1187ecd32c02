#include "h.h"

#include <signal.h>
#include <stdio.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <cstring>
#include <fstream>
#include <iostream>

bool g_trivial = false;

std::vector<Prop>& props() {
  static std::vector<Prop> p;
  return p;
}

static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
bool Explorer::more() { return now() < deadline; }

static Str enc(const Str& s) {
  Str o;
  for (unsigned char c : s) {
    if (c == '\\' || c < 0x20 || c == 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o;
}
static Str dec(const Str& s) {
  Str o;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '\\' && i + 3 < s.size() && s[i + 1] == 'x') {
      o += (char)strtol(s.substr(i + 2, 2).c_str(), nullptr, 16);
      i += 3;
    } else {
      o += s[i];
    }
  }
  return o;
}
Case& Case::l(const Str& k, const Strs& v) {
  Str o;
  for (auto& e : v) o += std::to_string(e.size()) + ":" + e;
  return s(k, o);
}
Strs Case::L(const Str& k) const {
  Strs r;
  Str v = S(k);
  size_t i = 0;
  while (i < v.size()) {
    size_t c = v.find(':', i);
    if (c == Str::npos) break;
    size_t n = atol(v.substr(i, c - i).c_str());
    r.push_back(v.substr(c + 1, n));
    i = c + 1 + n;
  }
  return r;
}
Str Case::text() const {
  Str o;
  for (auto& e : kv) o += e.first + "=" + enc(e.second) + "\n";
  return o;
}
Case parse_case(const Str& t) {
  Case c;
  std::istringstream in(t);
  Str line;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    size_t p = line.find('=');
    if (p == Str::npos) continue;
    c.s(line.substr(0, p), dec(line.substr(p + 1)));
  }
  return c;
}

// ---- texts ----
std::u32string u32(const Str& s) {
  std::u32string o;
  size_t i = 0;
  while (i < s.size()) {
    unsigned char c = s[i];
    int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
    char32_t v = n == 1 ? c : n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7;
    for (int k = 1; k < n && i + k < s.size(); k++) v = (v << 6) | (s[i + k] & 63);
    o.push_back(v);
    i += n;
  }
  return o;
}
Str u8(char32_t c) {
  Str o;
  if (c < 0x80) {
    o += (char)c;
  } else if (c < 0x800) {
    o += (char)(0xC0 | (c >> 6));
    o += (char)(0x80 | (c & 63));
  } else if (c < 0x10000) {
    o += (char)(0xE0 | (c >> 12));
    o += (char)(0x80 | ((c >> 6) & 63));
    o += (char)(0x80 | (c & 63));
  } else {
    o += (char)(0xF0 | (c >> 18));
    o += (char)(0x80 | ((c >> 12) & 63));
    o += (char)(0x80 | ((c >> 6) & 63));
    o += (char)(0x80 | (c & 63));
  }
  return o;
}
Str u8(const std::u32string& s) {
  Str o;
  for (char32_t c : s) o += u8(c);
  return o;
}
std::wstring wide(const std::u32string& s) { return std::wstring(s.begin(), s.end()); }
std::wstring wide(const Str& s) { return wide(u32(s)); }
std::u32string u32w(const std::wstring& s) { return std::u32string(s.begin(), s.end()); }
Str narrow(const std::wstring& s) { return u8(u32w(s)); }
Str esc(const Str& s) { return "\"" + enc(s) + "\""; }
Str show(const Strs& v) {
  Str o = "[";
  for (size_t i = 0; i < v.size(); i++) o += (i ? ", " : "") + esc(v[i]);
  return o + "]";
}
Str show(const std::vector<int>& v) {
  Str o = "[";
  for (size_t i = 0; i < v.size(); i++) o += (i ? ", " : "") + std::to_string(v[i]);
  return o + "]";
}
Str show(const std::vector<PII>& v) {
  Str o = "[";
  for (size_t i = 0; i < v.size(); i++)
    o += Str(i ? ", " : "") + "(" + std::to_string(v[i].first) + "," + std::to_string(v[i].second) + ")";
  return o + "]";
}
Str show_words(const std::vector<std::optional<int>>& v) {
  Str o = "[";
  for (size_t i = 0; i < v.size(); i++) o += Str(i ? ", " : "") + (v[i] ? std::to_string(*v[i]) : Str("-"));
  return o + "]";
}

Str random_text(Rng& r, int max_chars, int style) {
  static const std::vector<std::vector<char32_t>> styles = {
      {'a', 'b', 'c', ' '},
      {'a', 'b', 'A', 'B', ' ', ' ', '.', ',', '!', '\'', '1', '-', '_'},
      {'a', 'e', 0xE9, 0x301, 0x0300, 0x327, 'E', 0xC9, 0x1EA5, 0xAC00, 0x1100, 0x1161, ' ', 0x212B, 0xFB01},
      {0x4E00, 0x4E8C, 'a', ' ', 0x3000, 0x3042, 0x9FFF, 0x3400, 0xF900, 0xFF01},
      {0x1F600, 'a', ' ', 0x20000, 0x1D400, 'b', 0x2A6DF, '.'},
      {'\t', '\n', '\r', ' ', 'a', 0xA0, 0x2003, 0x200B, 0, 1, 0x7F, 0x85, 0xFFFD, 0xAD, 'b', 0x2028},
      {0x410, 0x430, 0x130, 0x131, 0xDF, 0x1E9E, 0x3A3, 0x3C3, 'I', 'i', 0x1C5, ' '},
      {'d', 'o', ' ', 'n', 't', '\'', 's', 'm', 'v', 'e', 'r', '.', '?', ','},
  };
  int n = r.one_in(20) ? 0 : 1 + r(max_chars >= 10 && r.one_in(30) ? max_chars * 8 : max_chars);
  Str o;
  bool mix = style < 0 && r.one_in(3);
  int st = style >= 0 ? style : r((int)styles.size());
  for (int i = 0; i < n; i++) {
    auto& a = styles[mix ? r((int)styles.size()) : st];
    char32_t c = a[r((int)a.size())];
    if (r.one_in(60)) {
      do c = r.coin() ? r(0x3000) : r(0x30000);
      while (c >= 0xD800 && c < 0xE000);
    }
    o += u8(c);
  }
  return o;
}

// ---- encodings ----
Encoding make_encoding(int n, int salt) {
  Encoding e;
  for (int i = 0; i < n; i++) {
    int v = salt * 1000 + i;
    e.ids.push_back(v);
    e.type_ids.push_back((v * 7) % 5);
    e.tokens.push_back("t" + std::to_string(v));
    e.words.push_back((v % 6 == 0) ? std::nullopt : std::optional<int>(v % 11 + 1));
    e.offsets.push_back({v * 2, v * 2 + 2});
    e.special_tokens_mask.push_back((i + salt / 2) % 2);
    e.attention_mask.push_back((i + salt) % 3 ? 1 : 0);
  }
  return e;
}
Str show(const Encoding& e) {
  return "{ids " + show(e.ids) + " type_ids " + show(e.type_ids) + " tokens " + show(e.tokens) + " words " +
         show_words(e.words) + " offsets " + show(e.offsets) + " special " + show(e.special_tokens_mask) +
         " attention " + show(e.attention_mask) + " overflowing " + std::to_string(e.overflowing.size()) + "}";
}
Err same_encoding(const Encoding& w, const Encoding& g, const Str& where) {
  bool eq = w.ids == g.ids && w.type_ids == g.type_ids && w.tokens == g.tokens && w.words == g.words &&
            w.offsets == g.offsets && w.special_tokens_mask == g.special_tokens_mask &&
            w.attention_mask == g.attention_mask && w.overflowing.size() == g.overflowing.size();
  if (!eq) FAIL(where << ": expected " << show(w) << " got " << show(g));
  for (size_t i = 0; i < w.overflowing.size(); i++) {
    Err e = same_encoding(w.overflowing[i], g.overflowing[i], where + " overflowing " + std::to_string(i));
    if (e) return e;
  }
  return {};
}
bool parallel(const Encoding& e) {
  size_t n = e.ids.size();
  if (e.type_ids.size() != n || e.tokens.size() != n || e.words.size() != n || e.offsets.size() != n ||
      e.special_tokens_mask.size() != n || e.attention_mask.size() != n)
    return false;
  for (auto& o : e.overflowing)
    if (!parallel(o)) return false;
  return true;
}

Str jstr(const Str& s) {
  Str o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 0x20) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o + "\"";
}

// ---- driver ----
// harness list
// harness explore ID SEED SECONDS TIER REPLAYFILE   (exit 0 clean, 10 failing case written)
// harness replay ID FILE                            (exit 0 holds, 10 fails)
struct Shared {
  char text[1 << 20];
  long cases, nontrivial;
  char err[1 << 16];
  char sample[1 << 14];
  int nsamples;
};

static Err guarded(const Prop& p, const Case& c) {
  try {
    g_trivial = false;
    return p.check(c);
  } catch (const std::exception& e) {
    FAIL("unexpected exception: " << e.what());
  } catch (...) {
    FAIL("unexpected exception");
  }
}

int main(int argc, char** argv) {
  Str cmd = argc > 1 ? argv[1] : "";
  if (cmd == "list") {
    for (auto& p : props()) std::cout << p.id << "\n";
    return 0;
  }
  const Prop* prop = nullptr;
  for (auto& p : props())
    if (argc > 2 && p.id == argv[2]) prop = &p;
  if (!prop) return 3;
  auto* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (cmd == "replay") {
    std::ifstream in(argv[3]);
    std::stringstream b;
    b << in.rdbuf();
    Case c = parse_case(b.str());
    pid_t pid = fork();
    if (pid == 0) {
      rlimit lim{3ull << 30, 3ull << 30};
      setrlimit(RLIMIT_AS, &lim);
      alarm(20);
      Err e = guarded(*prop, c);
      if (e) {
        std::cout << "FAILS " << *e << std::endl;
        _exit(10);
      }
      _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st)) {
      if (WEXITSTATUS(st) == 0) std::cout << "HOLDS" << std::endl;
      return WEXITSTATUS(st) == 0 ? 0 : 10;
    }
    std::cout << "FAILS crashed with signal " << WTERMSIG(st) << std::endl;
    return 10;
  }
  if (cmd != "explore" || argc < 7) return 3;
  long seed = atol(argv[3]);
  double secs = atof(argv[4]);
  bool thorough = Str(argv[5]) == "thorough";
  Str out = argv[6];
  std::set<Str> known;
  for (int i = 7; i < argc; i++) {
    std::ifstream in(argv[i]);
    std::stringstream b;
    b << in.rdbuf();
    known.insert(parse_case(b.str()).text());
  }
  pid_t pid = fork();
  if (pid == 0) {
    if (!freopen("/dev/null", "w", stderr)) _exit(3);
    rlimit lim{3ull << 30, 3ull << 30};
    setrlimit(RLIMIT_AS, &lim);
    Explorer ex;
    ex.rng.g.seed(seed * 1000003 + std::hash<Str>()(prop->id));
    ex.thorough = thorough;
    ex.deadline = now() + secs;
    ex.hunting = secs > 30;
    std::unordered_set<size_t> seen;
    ex.run = [&](const Case& c) {
      Str t = c.text();
      if (known.count(t)) return;
      bool fresh = seen.size() > 4000000 || seen.insert(std::hash<Str>()(t)).second;
      if (!fresh) return;
      strncpy(sh->text, t.c_str(), sizeof(sh->text) - 1);
      alarm(10);
      Err e = guarded(*prop, c);
      sh->cases++;
      if (!g_trivial) {
        sh->nontrivial++;
        if (sh->nsamples < 3 && (sh->nontrivial & (sh->nontrivial - 1)) == 0 && sh->nontrivial > 3) {
          sh->nsamples++;
          size_t l = strlen(sh->sample);
          snprintf(sh->sample + l, sizeof(sh->sample) - l, "%s\n", t.substr(0, 2000).c_str());
        }
      }
      if (e) {
        strncpy(sh->err, e->c_str(), sizeof(sh->err) - 1);
        _exit(10);
      }
    };
    prop->explore(ex);
    _exit(0);
  }
  int st;
  waitpid(pid, &st, 0);
  Str err;
  bool bad = true;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    bad = false;
  } else if (WIFEXITED(st) && WEXITSTATUS(st) == 10) {
    err = sh->err;
  } else if (WIFSIGNALED(st)) {
    err = WTERMSIG(st) == SIGALRM ? "does not terminate (10 s for one case)"
                                  : "crashes with signal " + std::to_string(WTERMSIG(st));
  } else {
    err = "exits with status " + std::to_string(WEXITSTATUS(st));
  }
  std::cout << "cases " << sh->cases << "\nnontrivial " << sh->nontrivial << "\nrule " << prop->rule << "\n";
  std::istringstream smp(sh->sample);
  for (Str l; std::getline(smp, l);) std::cout << "sample " << l << "\n";
  if (bad) {
    std::ofstream o(out);
    std::istringstream es(err);
    o << "# property " << prop->id << ": failing input on the real code; replay: run_check.py --replay " << prop->id << " FILE\n";
    for (Str l; std::getline(es, l);) o << "# " << enc(l) << "\n";
    o << sh->text;
    o.close();
    std::cout << "failed " << enc(err) << std::endl;
    return 10;
  }
  std::cout << "ok" << std::endl;
  return 0;
}
