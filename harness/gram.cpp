#include "gram.h"
#include <algorithm>
#include <cstring>
#include <functional>
#include <set>

namespace gram {
using sim::Rng;
static bool ws(unsigned c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }

// ------------------------------------------------------------ regular expressions
static Rx cls(const Set &s, const std::string &t) { Rx r; r.k = Rx::CLS; r.cls = s; r.cls_text = t; return r; }
static Rx chr(unsigned char c) {
  Set s; s.set(c);
  std::string t(1, (char)c);
  if (strchr("[]+*{}?\\|().", c)) t = std::string("\\") + (char)c;
  if (c == '/') t = "[/]";
  return cls(s, t);
}
static Rx cat(std::vector<Rx> k) { Rx r; r.k = Rx::CAT; r.kids = std::move(k); return r; }
static Rx alt(std::vector<Rx> k) { Rx r; r.k = Rx::ALT; r.kids = std::move(k); return r; }
static Rx rep(Rx x, int min, int max, const char *q) { Rx r; r.k = Rx::REP; r.kids.push_back(std::move(x)); r.min = min; r.max = max; r.quant = q; return r; }
// a class from ranges, as it is written between brackets
static Rx ranges(const std::vector<std::pair<int, int>> &v, bool neg) {
  Set s; std::string t = neg ? "[^" : "[";
  auto c1 = [](int c) { std::string o; if (strchr("\\-[]", c)) o = "\\"; if (c == '\t') return std::string("\\t"); if (c == '\n') return std::string("\\n"); if (c == '\r') return std::string("\\r"); return o + (char)c; };
  for (auto &p : v) { for (int c = p.first; c <= p.second; c++) s.set((size_t)c); t += c1(p.first); if (p.second == p.first + 1) t += c1(p.second); else if (p.second > p.first) t += "-" + c1(p.second); }
  if (neg) { s = ~s; s.reset(0); s.reset(255); }      // zero ends the input; 255 is never part of a class
  return cls(s, t + "]");
}
static std::string rx_text(const Rx &r, bool top) {
  std::string o;
  switch (r.k) {
    case Rx::CLS: return r.cls_text;
    case Rx::CAT: for (auto &k : r.kids) o += rx_text(k, false); return top ? o : "(" + o + ")";
    case Rx::ALT: for (size_t i = 0; i < r.kids.size(); i++) o += (i ? "|" : "") + (r.kids[i].k == Rx::CLS || (r.kids[i].k == Rx::REP && r.kids[i].kids[0].k == Rx::CLS) ? rx_text(r.kids[i], false) : "(" + rx_text(r.kids[i], true) + ")"); return "(" + o + ")";
    case Rx::REP: { const Rx &k = r.kids[0]; return (k.k == Rx::CLS ? rx_text(k, false) : k.k == Rx::ALT ? rx_text(k, false) : "(" + rx_text(k, true) + ")") + r.quant; }
  }
  return o;
}
typedef std::set<int64_t> Pos;
static Pos rx_ends(const Rx &r, const std::string &in, const Pos &from) {
  Pos out;
  switch (r.k) {
    case Rx::CLS: for (auto p : from) if (p < (int64_t)in.size() && r.cls[(unsigned char)in[(size_t)p]]) out.insert(p + 1); return out;
    case Rx::CAT: out = from; for (auto &k : r.kids) { out = rx_ends(k, in, out); if (out.empty()) break; } return out;
    case Rx::ALT: for (auto &k : r.kids) { Pos q = rx_ends(k, in, from); out.insert(q.begin(), q.end()); } return out;
    case Rx::REP: {
      Pos cur = from; if (r.min == 0) out = from;
      for (int n = 0; r.max < 0 || n < r.max; n++) {
        Pos nx = rx_ends(r.kids[0], in, cur), fresh;
        for (auto p : nx) if (out.insert(p).second) fresh.insert(p);
        if (fresh.empty()) break;
        cur = fresh;
      }
      return out;
    }
  }
  return out;
}
static int64_t rx_longest(const Rx &r, const std::string &in, int64_t pos) { Pos e = rx_ends(r, in, Pos{pos}); return e.empty() ? -1 : *e.rbegin(); }
static void rx_chars(const Rx &r, Set &s) { if (r.k == Rx::CLS) s |= r.cls; for (auto &k : r.kids) rx_chars(k, s); }
static bool rx_nullable(const Rx &r) {
  switch (r.k) {
    case Rx::CLS: return false;
    case Rx::CAT: for (auto &k : r.kids) if (!rx_nullable(k)) return false; return true;
    case Rx::ALT: for (auto &k : r.kids) if (rx_nullable(k)) return true; return false;
    default: return r.min == 0 || rx_nullable(r.kids[0]);
  }
}
static Set rx_first(const Rx &r) {
  Set s;
  switch (r.k) {
    case Rx::CLS: return r.cls;
    case Rx::CAT: for (auto &k : r.kids) { s |= rx_first(k); if (!rx_nullable(k)) break; } return s;
    case Rx::ALT: for (auto &k : r.kids) s |= rx_first(k); return s;
    default: return rx_first(r.kids[0]);
  }
}
static void rx_sample(const Rx &r, Rng &g, std::string &o, int64_t big) {
  switch (r.k) {
    case Rx::CLS: {
      std::vector<int> a, b;
      for (int c = 1; c < 255; c++) if (r.cls[(size_t)c]) { b.push_back(c); if (c >= 32 && c < 127) a.push_back(c); }
      auto &v = a.empty() || g.chance(0.05) ? b : a;
      if (!v.empty()) o += (char)v[g.below(v.size())];
      return;
    }
    case Rx::CAT: for (auto &k : r.kids) rx_sample(k, g, o, big); return;
    case Rx::ALT: rx_sample(r.kids[g.below(r.kids.size())], g, o, big); return;
    case Rx::REP: {
      int64_t n = r.max == 1 ? (int64_t)g.below(2) : g.chance(0.15) ? g.logrange(1, big) : (int64_t)g.below(6);
      if (n < r.min) n = r.min;
      for (int64_t i = 0; i < n; i++) rx_sample(r.kids[0], g, o, big / 4 + 1);
      return;
    }
  }
}
// a regular expression that describes almost the same strings
static int rx_count(const Rx &r) { int n = r.k == Rx::CLS ? 1 : 1; for (auto &k : r.kids) n += rx_count(k); return n; }
static bool rx_near(Rx &r, Rng &g, int &k) {
  if (k-- == 0) {
    switch (r.k) {
      case Rx::CLS: if (g.chance(0.5)) { r.cls.flip(); r.cls.reset(0); r.cls.reset(255); } else { Rx x = r; r.k = Rx::CAT; r.kids = {x, x}; if (g.chance(0.5)) r.kids.clear(); } return true;
      case Rx::CAT: { size_t i = g.below(r.kids.size()); double u = g.unit(); if (r.kids.empty()) return true; if (u < 0.6) r.kids.erase(r.kids.begin() + (long)i); else if (u < 0.8) { Rx x = r.kids[i]; r.kids.insert(r.kids.begin() + (long)i, x); } else std::swap(r.kids[i], r.kids[g.below(r.kids.size())]); return true; }
      case Rx::ALT: r.k = Rx::CAT; return true;
      case Rx::REP: if (g.chance(0.5) && r.min > 0) { r.k = Rx::CAT; r.kids.clear(); } else { Rx x = r.kids[0]; r.k = Rx::CAT; int n = (int)g.range(1, 3); for (int i = 0; i < n; i++) r.kids.push_back(x); } return true;
    }
  }
  for (auto &c : r.kids) if (rx_near(c, g, k)) return true;
  return false;
}
static const char *star(Rng &g) { static const char *q[] = {"*", "*+", "*+", "*?", "**"}; return q[g.below(5)]; }
static const char *plus(Rng &g) { static const char *q[] = {"+", "++", "++", "+?", "+*"}; return q[g.below(5)]; }
static Rx rnd_class(Rng &g, bool allow_ws) {
  if (g.chance(0.2)) {   // ranges in any order, overlapping or touching each other
    std::vector<std::pair<int, int>> v; int n = (int)g.range(2, 6), lo = g.chance(0.5) ? 'a' : 33, hi = g.chance(0.5) ? 'z' : 126;
    bool neg = g.chance(0.4);
    if (neg && !allow_ws) { v.push_back({9, 10}); v.push_back({13, 13}); v.push_back({32, 32}); }
    for (int i = 0; i < n; i++) { int a = (int)g.range(lo, hi), b = g.chance(0.4) ? a : (int)g.range(a, std::min(hi, a + 12)); v.push_back({a, b}); }
    for (size_t i = v.size(); i-- > 1;) std::swap(v[i], v[g.below(i + 1)]);
    if (v[0].first == '^') v[0] = {'a', 'b'};
    return ranges(v, neg);
  }
  static const char *alpha = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
  if (g.chance(0.3)) {   // negated
    std::vector<std::pair<int, int>> v; std::set<int> u;
    int n = (int)g.range(1, 4);
    for (int i = 0; i < n; i++) { int c = (int)g.range(33, 126); if (u.insert(c).second) v.push_back({c, c}); }
    if (!allow_ws) for (int c : {9, 10, 13, 32}) v.push_back({c, c});
    std::sort(v.begin(), v.end());
    return ranges(v, true);
  }
  int n = g.chance(0.25) ? (int)g.range(7, 12) : (int)g.range(1, 4);   // eight ranges fill the vector register
  std::vector<std::pair<int, int>> v;
  if (n >= 7) { int c = 'a'; for (int i = 0; i < n && c <= 'z'; i++) { v.push_back({c, c}); c += 2; } if (g.chance(0.5)) v.push_back({'0', '9'}); std::sort(v.begin(), v.end()); return ranges(v, false); }
  static const std::pair<int, int> base[] = {{'a', 'z'}, {'A', 'Z'}, {'0', '9'}, {'a', 'f'}, {'x', 'z'}, {'0', '1'}, {'_', '_'}, {'B', 'M'}};
  Set used;
  for (int i = 0; i < n; i++) {
    auto p = base[g.below(8)]; if (g.chance(0.3)) { int c = alpha[g.below(63)]; p = {c, c}; }
    bool ov = false; for (int c = p.first; c <= p.second; c++) ov |= used[(size_t)c];
    if (ov) continue;
    for (int c = p.first; c <= p.second; c++) used.set((size_t)c);
    v.push_back(p);
  }
  std::sort(v.begin(), v.end());
  return ranges(v, false);
}
static Rx rnd_rx(Rng &g, int d) {
  double u = g.unit();
  if (d <= 0 || u < 0.4) return g.chance(0.4) ? chr((unsigned char)"abcxyz019._-"[g.below(12)]) : rnd_class(g, false);
  if (u < 0.6) { std::vector<Rx> k; int n = (int)g.range(2, 3); for (int i = 0; i < n; i++) k.push_back(rnd_rx(g, d - 1)); return cat(k); }
  if (u < 0.72) { std::vector<Rx> k; int n = (int)g.range(2, 3); for (int i = 0; i < n; i++) k.push_back(rnd_rx(g, d - 1)); return alt(k); }
  if (u < 0.80) {      // groups that end in a repetition, optional or repeated themselves, one after the other
    std::vector<Rx> k; int n = (int)g.range(1, 3);
    for (int i = 0; i < n; i++) {
      Rx in = rep(g.chance(0.5) ? rnd_class(g, false) : chr((unsigned char)"abcxyz019._-"[g.below(12)]), g.chance(0.5), -1, ""); in.quant = in.min ? plus(g) : star(g);
      Rx grp = g.chance(0.2) ? in : cat({chr((unsigned char)"abckxyz01.-"[g.below(11)]), in});
      double v = g.unit();
      if (rx_nullable(grp) && g.chance(0.5)) k.push_back(grp);
      else if (v < 0.5) k.push_back(rep(grp, 0, 1, "?"));
      else if (v < 0.7) k.push_back(rep(grp, 0, -1, star(g)));
      else if (v < 0.85) k.push_back(rep(grp, 1, -1, plus(g)));
      else k.push_back(grp);
    }
    return cat(k);
  }
  Rx x = rnd_rx(g, d - 1);
  if (rx_nullable(x) && g.chance(0.6)) x = cat({chr('k'), x});
  if (u < 0.87) return rep(x, 0, 1, g.chance(0.7) ? "?" : "??");
  if (u < 0.94) return rep(x, 0, -1, star(g));
  return rep(x, 1, -1, plus(g));
}
static Tok lit(const std::string &s) { Tok t; t.lit = true; t.text = s; t.first.set((unsigned char)s[0]); return t; }
static Tok reg(Rx r) { Tok t; t.lit = false; t.first = rx_first(r); rx_chars(r, t.ext); t.text = rx_text(r, true); t.re = std::move(r); return t; }

// ------------------------------------------------------------ grammar analysis
static Ex tok(int i) { Ex e; e.k = Ex::TOK; e.ref = i; return e; }
static Ex nt(int i) { Ex e; e.k = Ex::NT; e.ref = i; return e; }
static Ex mk(Ex::K k, std::vector<Ex> v) { Ex e; e.k = k; e.kids = std::move(v); return e; }
struct An {
  Grammar &g;
  bool null(const Ex &e) const {
    switch (e.k) {
      case Ex::TOK: return false;
      case Ex::NT: return g.nullable[(size_t)e.ref];
      case Ex::SEQ: for (auto &k : e.kids) if (!null(k)) return false; return true;
      case Ex::LITS: return false;
      case Ex::ALT: for (auto &k : e.kids) if (null(k)) return true; return false;
      case Ex::OPT: case Ex::STAR: return true;
      case Ex::PLUS: return null(e.kids[0]);
      case Ex::PRE: if (!null(e.kids[0])) return false; for (size_t i = 1; i < e.kids.size(); i++) if (null(e.kids[i])) return true; return false;
    }
    return false;
  }
  Set first(const Ex &e) const {
    Set s;
    switch (e.k) {
      case Ex::TOK: return g.toks[(size_t)e.ref].first;
      case Ex::NT: return g.first[(size_t)e.ref];
      case Ex::SEQ: for (auto &k : e.kids) { s |= first(k); if (!null(k)) break; } return s;
      case Ex::ALT: case Ex::LITS: for (auto &k : e.kids) s |= first(k); return s;
      case Ex::OPT: case Ex::STAR: case Ex::PLUS: return first(e.kids[0]);
      case Ex::PRE: s = first(e.kids[0]); if (null(e.kids[0])) for (size_t i = 1; i < e.kids.size(); i++) s |= first(e.kids[i]); return s;
    }
    return s;
  }
  void follow(const Ex &e, const Set &f, bool &ch) {
    switch (e.k) {
      case Ex::TOK: return;
      case Ex::NT: { Set n = g.follow[(size_t)e.ref] | f; if (n != g.follow[(size_t)e.ref]) { g.follow[(size_t)e.ref] = n; ch = true; } return; }
      case Ex::SEQ: { Set cur = f; for (size_t i = e.kids.size(); i-- > 0;) { follow(e.kids[i], cur, ch); Set n = first(e.kids[i]); if (null(e.kids[i])) n |= cur; cur = n; } return; }
      case Ex::LITS: return;
      case Ex::ALT: for (auto &k : e.kids) follow(k, f, ch); return;
      case Ex::OPT: follow(e.kids[0], f, ch); return;
      case Ex::STAR: case Ex::PLUS: follow(e.kids[0], f | first(e.kids[0]), ch); return;
      case Ex::PRE: { Set n; for (size_t i = 1; i < e.kids.size(); i++) { follow(e.kids[i], f, ch); n |= first(e.kids[i]); if (null(e.kids[i])) n |= f; } follow(e.kids[0], n, ch); return; }
    }
  }
  int height(const Ex &e) const {
    const int INF = 1 << 20; int h = 0;
    switch (e.k) {
      case Ex::TOK: return 0;
      case Ex::NT: return std::min(INF, g.height[(size_t)e.ref] + 1);
      case Ex::SEQ: for (auto &k : e.kids) h = std::max(h, height(k)); return h;
      case Ex::LITS: return 0;
      case Ex::ALT: h = INF; for (auto &k : e.kids) h = std::min(h, height(k)); return h;
      case Ex::OPT: case Ex::STAR: return 0;
      case Ex::PLUS: return height(e.kids[0]);
      case Ex::PRE: h = INF; for (size_t i = 1; i < e.kids.size(); i++) h = std::min(h, height(e.kids[i])); return std::max(h, height(e.kids[0]));
    }
    return h;
  }
  void run() {
    size_t n = g.rules.size();
    g.nullable.assign(n, false); g.first.assign(n, Set()); g.follow.assign(n, Set()); g.height.assign(n, 1 << 20);
    for (bool ch = true; ch;) { ch = false; for (size_t i = 0; i < n; i++) if (!g.nullable[i] && null(g.rules[i].ex)) { g.nullable[i] = true; ch = true; } }
    for (bool ch = true; ch;) { ch = false; for (size_t i = 0; i < n; i++) { Set s = first(g.rules[i].ex); if (s != g.first[i]) { g.first[i] = s; ch = true; } } }
    for (bool ch = true; ch;) { ch = false; for (size_t i = 0; i < n; i++) follow(g.rules[i].ex, g.follow[i], ch); }
    for (bool ch = true; ch;) { ch = false; for (size_t i = 0; i < n; i++) { int h = height(g.rules[i].ex); if (h < g.height[i]) { g.height[i] = h; ch = true; } } }
  }
  // nonterminals that can come last
  void tails(const Ex &e, std::set<int> &s) const {
    switch (e.k) {
      case Ex::TOK: return;
      case Ex::NT: s.insert(e.ref); return;
      case Ex::SEQ: for (size_t i = e.kids.size(); i-- > 0;) { tails(e.kids[i], s); if (!null(e.kids[i])) break; } return;
      case Ex::PRE: { bool n = false; for (size_t i = 1; i < e.kids.size(); i++) { tails(e.kids[i], s); n |= null(e.kids[i]); } if (n) tails(e.kids[0], s); return; }
      default: for (auto &k : e.kids) tails(k, s); return;
    }
  }
  bool tail_cycle(int i) const {
    std::set<int> s; tails(g.rules[(size_t)i].ex, s);
    std::vector<int> w(s.begin(), s.end());
    while (!w.empty()) { int x = w.back(); w.pop_back(); std::set<int> q; tails(g.rules[(size_t)x].ex, q); for (int y : q) if (s.insert(y).second) w.push_back(y); }
    return s.count(i) != 0;
  }
  // nonterminals that can come first
  void corners(const Ex &e, std::set<int> &s) const {
    switch (e.k) {
      case Ex::TOK: return;
      case Ex::NT: s.insert(e.ref); return;
      case Ex::SEQ: for (auto &k : e.kids) { corners(k, s); if (!null(k)) break; } return;
      case Ex::PRE: corners(e.kids[0], s); if (null(e.kids[0])) for (size_t i = 1; i < e.kids.size(); i++) corners(e.kids[i], s); return;
      default: for (auto &k : e.kids) corners(k, s); return;
    }
  }
};

// ------------------------------------------------------------ random grammars
struct Gen {
  Rng &r; Grammar &g; An a;
  std::vector<unsigned char> fresh;     // characters no token starts with yet
  std::vector<int> plain;               // tokens usable anywhere
  std::vector<int> simple;              // nonterminals made of tokens only (usable in common prefixes)
  Gen(Rng &rr, Grammar &gg) : r(rr), g(gg), a{gg} {}
  int add(Tok t) { g.toks.push_back(std::move(t)); return (int)g.toks.size() - 1; }
  std::string word(unsigned char lead, bool huge = false) {
    int n = r.chance(0.5) ? (int)r.range(0, 5) : r.chance(0.5) ? (int)r.range(5, 9) : huge && r.chance(0.05) ? (int)r.range(200, 400) : (int)r.range(12, 36);
    std::string s(1, (char)lead);
    for (int i = 0; i < n; i++) s += (char)"abcdefghijklmnopqrstuvwxyz_0123456789:=#"[r.below(40)];
    return s;
  }
  int fresh_tok() {
    if (fresh.empty()) return -1;
    unsigned char c = fresh.back(); fresh.pop_back();
    return add(lit(r.chance(0.6) ? std::string(1, (char)c) : word(c, true)));
  }
  void tokens(int64_t n) {
    std::string pool = "(){}[]<>=+*,:;!?@#$%^&~|`_.abcdefghijklmnopqrstuvwxyz";
    for (size_t i = pool.size(); i-- > 1;) std::swap(pool[i], pool[r.below(i + 1)]);
    for (char c : pool) fresh.push_back((unsigned char)c);
    auto lead = [&]() { unsigned char c = fresh.back(); fresh.pop_back(); return c; };
    if (r.chance(0.7)) plain.push_back(add(reg(r.chance(0.5) ? rep(ranges({{'0', '9'}}, false), 1, -1, plus(r)) : cat({rep(chr('-'), 0, 1, "?"), rep(ranges({{'0', '9'}}, false), 1, -1, "++"), rep(cls(Set().set('.'), "[.]"), 0, 1, "?"), rep(ranges({{'0', '9'}}, false), 0, -1, "*+")}))));
    if (r.chance(0.6)) plain.push_back(add(reg(cat({ranges({{'A', 'Z'}}, false), rep(ranges({{'A', 'Z'}, {'a', 'z'}, {'0', '9'}, {'_', '_'}}, false), 0, -1, star(r))}))));
    if (r.chance(0.6)) {
      Rx body = r.chance(0.5) ? rep(ranges({{'"', '"'}}, true), 0, -1, star(r))
                              : rep(alt({ranges({{'"', '"'}, {'\\', '\\'}}, true), cat({cls(Set().set('\\'), "\\\\"), cls(Set().set('"'), "[\"]")})}), 0, -1, star(r));
      plain.push_back(add(reg(cat({chr('"'), body, chr('"')}))));
    }
    if (r.chance(0.3)) plain.push_back(add(reg(cat({chr('\''), rep(cls(ranges({}, true).cls, "."), 0, 1, "?"), chr('\'')}))));
    while ((int64_t)plain.size() < n && fresh.size() > 24) {
      if (r.chance(0.3)) {
        Rx x = cat({chr(lead()), rnd_rx(r, 3)});
        plain.push_back(add(reg(x)));
      } else if (r.chance(0.15) && !plain.empty()) {   // a literal that shares its beginning with another one
        const Tok &o = g.toks[(size_t)plain[r.below(plain.size())]];
        std::string s = o.lit ? o.text.substr(0, 1 + r.below(o.text.size())) + "Q" : word(lead());
        plain.push_back(add(lit(s)));
      } else { unsigned char c = lead(); plain.push_back(add(lit(r.chance(0.5) ? std::string(1, (char)c) : word(c)))); }
    }
  }
  Ex seq(std::vector<Ex> v) { return v.size() == 1 ? v[0] : mk(Ex::SEQ, v); }
  Ex atom(int d, int nnt) {
    double u = r.unit();
    if (d <= 0 || u < 0.45) {
      if (r.chance(0.3) && nnt > 1) return nt(1 + (int)r.below((uint64_t)nnt - 1));
      return tok(plain[r.below(plain.size())]);
    }
    if (u < 0.62 && nnt > 1) return nt(1 + (int)r.below((uint64_t)nnt - 1));
    if (u < 0.74) { std::vector<Ex> v; int n = r.chance(0.95) ? (int)r.range(2, 4) : (int)r.range(5, 10); for (int i = 0; i < n; i++) v.push_back(n > 4 ? tok(plain[r.below(plain.size())]) : body(d - 1, nnt)); Ex e = mk(Ex::ALT, v); e.pri = r.chance(0.2); return e; }
    if (u < 0.82) return mk(Ex::OPT, {body(d - 1, nnt)});
    if (u < 0.90) return mk(Ex::STAR, {body(d - 1, nnt)});
    if (u < 0.94) return mk(Ex::PLUS, {body(d - 1, nnt)});
    if (u < 0.965) { int l = lits(); if (l >= 0) return made[(size_t)l]; }
    return prefix(d, nnt);
  }
  std::vector<Ex> made;
  // a choice between literals that begin with the same characters, some the beginning of others
  int lits() {
    if (fresh.empty()) return -1;
    unsigned char c = fresh.back(); fresh.pop_back();
    std::set<std::string> w; std::string base = word(c).substr(0, 20);
    int n = r.chance(0.9) ? (int)r.range(2, 5) : (int)r.range(6, 14);
    for (int i = 0; i < n; i++) {
      std::string x = base.substr(0, 1 + r.below(base.size())); int m = (int)r.below(4);
      for (int k = 0; k < m; k++) x += (char)"abcxyz012"[r.below(9)];
      w.insert(x);
    }
    std::vector<std::string> v(w.begin(), w.end());
    for (size_t i = v.size(); i-- > 1;) std::swap(v[i], v[r.below(i + 1)]);
    Ex e = mk(Ex::LITS, {});
    for (auto &x : v) {
      Tok t = lit(x);
      for (auto &y : w) if (y.size() > x.size() && y.compare(0, x.size(), x) == 0) t.ext.set((unsigned char)y[x.size()]);
      e.kids.push_back(tok(add(t)));
    }
    made.push_back(e);
    return (int)made.size() - 1;
  }
  // a choice between sequences that begin alike: needs more than one token of lookahead
  Ex prefix(int d, int nnt) {
    std::vector<Ex> p; int n = (int)r.range(1, 3);
    Set last; bool have = false;
    for (int i = 0; i < n; i++) {
      int t = plain[r.below(plain.size())];
      if (!simple.empty() && r.chance(0.35)) {
        int s = simple[r.below(simple.size())];
        int ft = g.rules[(size_t)s].ex.kids.empty() ? g.rules[(size_t)s].ex.ref : g.rules[(size_t)s].ex.kids[0].ref;
        int lt = g.rules[(size_t)s].ex.kids.empty() ? ft : g.rules[(size_t)s].ex.kids.back().ref;
        if (have && (last & g.toks[(size_t)ft].first).any()) continue;
        p.push_back(nt(s)); last = g.toks[(size_t)lt].ext; have = true;
        continue;
      }
      if (have && (last & g.toks[(size_t)t].first).any()) continue;
      p.push_back(tok(t)); last = g.toks[(size_t)t].ext; have = true;
    }
    std::vector<Ex> v{seq(p)};
    if (p.empty()) v[0] = tok(plain[0]);
    int m = r.chance(0.9) ? (int)r.range(2, 3) : (int)r.range(4, 10);
    for (int i = 0; i < m; i++) {
      int f = -1;      // a literal that cannot be taken for a continuation of the prefix
      for (int k = 0; k < 6 && f < 0; k++) { int c = fresh_tok(); if (c < 0) break; if (!(g.toks[(size_t)c].first & last).any()) f = c; }
      if (f < 0) continue;
      if (r.chance(0.5)) v.push_back(tok(f)); else v.push_back(mk(Ex::SEQ, {tok(f), atom(d - 1, nnt)}));
    }
    if (v.size() < 3) return v[0];
    return mk(Ex::PRE, v);
  }
  Ex body(int d, int nnt) {
    std::vector<Ex> v; int n = r.chance(0.6) ? (int)r.range(1, 2) : (int)r.range(2, 5);
    if (r.chance(0.002)) for (int k = (int)r.range(50, 400); k-- > 0;) v.push_back(tok(plain[r.below(plain.size())]));      // hundreds of nodes
    for (int i = 0; i < n; i++) v.push_back(atom(d, nnt));
    return seq(v);
  }
  static void lead(Ex &e, int t) {
    if (e.k == Ex::SEQ) e.kids.insert(e.kids.begin(), tok(t));
    else { Ex o = std::move(e); e = mk(Ex::SEQ, {tok(t), o}); }
  }
  // makes every decision depend on the next character only; false when out of characters
  bool fix(Ex &e, const Set &f, bool &changed) {
    auto guard = [&](Ex &k) { int t = fresh_tok(); if (t < 0) return false; lead(k, t); changed = true; a.run(); return true; };
    switch (e.k) {
      case Ex::TOK: case Ex::NT: return true;
      case Ex::SEQ: {
        Set cur = f;
        for (size_t i = e.kids.size(); i-- > 0;) { if (!fix(e.kids[i], cur, changed)) return false; Set n = a.first(e.kids[i]); if (a.null(e.kids[i])) n |= cur; cur = n; }
        return true;
      }
      case Ex::ALT: {
        Set seen;
        for (auto &k : e.kids) { if (a.null(k) || (!e.pri && (a.first(k) & seen).any())) if (!guard(k)) return false; seen |= a.first(k); if (!fix(k, f, changed)) return false; }
        return true;
      }
      case Ex::LITS: {      // what follows one of them must not look like the rest of a longer one
        Set x; for (auto &k : e.kids) x |= g.toks[(size_t)k.ref].ext;
        if (!(x & f).any()) return true;
        int t = -1; for (int k = 0; k < 8 && t < 0; k++) { int c = fresh_tok(); if (c < 0) return false; if (!(g.toks[(size_t)c].first & x).any()) t = c; }
        if (t < 0) return false;
        trail(e, t); changed = true; a.run(); return true;
      }
      case Ex::OPT: if (a.null(e.kids[0]) || (a.first(e.kids[0]) & f).any()) if (!guard(e.kids[0])) return false; return fix(e.kids[0], f, changed);
      case Ex::STAR: case Ex::PLUS: if (a.null(e.kids[0]) || (a.first(e.kids[0]) & f).any()) if (!guard(e.kids[0])) return false; return fix(e.kids[0], f | a.first(e.kids[0]), changed);
      case Ex::PRE: for (size_t i = 1; i < e.kids.size(); i++) if (!fix(e.kids[i], f, changed)) return false; return true;
    }
    return true;
  }
  void refs(const Ex &e, std::set<int> &s) { if (e.k == Ex::NT) s.insert(e.ref); for (auto &k : e.kids) refs(k, s); }
  static void trail(Ex &e, int t) {
    if (e.k == Ex::SEQ) e.kids.push_back(tok(t));
    else { Ex o = std::move(e); e = mk(Ex::SEQ, {o, tok(t)}); }
  }
  bool go(int64_t size) {
    bool rightrec = r.chance(0.4);      
    int nnt = (int)std::max<int64_t>(1, size);
    tokens(r.range(4, 16));
    if (plain.empty()) return false;
    for (int i = 0; i < nnt; i++) { Rule u; u.name = "R"; g.rules.push_back(u); }
    static const char *names[] = {"Doc", "Item", "Pair", "list_", "Value", "_x", "Expr2", "A", "b", "Name", "Tail", "Group"};
    for (int i = 0; i < nnt; i++) g.rules[(size_t)i].name = std::string(names[r.below(12)]) + std::to_string(i);
    // some nonterminals are plain token sequences
    for (int i = 1; i < nnt; i++) if (r.chance(0.3)) {
      std::vector<Ex> v; int n = (int)r.range(1, 2); Set last;
      for (int k = 0; k < n; k++) { int t = plain[r.below(plain.size())]; if (k && (last & g.toks[(size_t)t].first).any()) break; v.push_back(tok(t)); last = g.toks[(size_t)t].ext; }
      g.rules[(size_t)i].ex = seq(v); simple.push_back(i);
    }
    for (int i = 0; i < nnt; i++) {
      if (std::find(simple.begin(), simple.end(), i) != simple.end()) continue;
      Ex e = r.chance(0.3) ? mk(Ex::ALT, {body(2, nnt), body(2, nnt)}) : body(3, nnt);
      g.rules[(size_t)i].ex = e;
    }
    // everything is reachable from the root, and the root ends in a required literal
    std::set<int> seen{0}; std::vector<int> st{0};
    std::vector<Ex> extra{g.rules[0].ex};
    for (;;) {
      while (!st.empty()) { int x = st.back(); st.pop_back(); std::set<int> s; refs(g.rules[(size_t)x].ex, s); for (int y : s) if (seen.insert(y).second) st.push_back(y); }
      int miss = -1; for (int i = 1; i < nnt; i++) if (!seen.count(i)) { miss = i; break; }
      if (miss < 0) break;
      extra.push_back(mk(r.chance(0.5) ? Ex::OPT : Ex::STAR, {nt(miss)})); seen.insert(miss); st.push_back(miss);
    }
    int endt = fresh_tok(); if (endt < 0) return false;
    extra.push_back(tok(endt));
    g.rules[0].ex = mk(Ex::SEQ, extra);
    for (int iter = 0; iter < 60; iter++) {
      a.run();
      bool ch = false;
      for (int i = 0; i < nnt && !ch; i++) {
        if (a.null(g.rules[(size_t)i].ex)) { int t = fresh_tok(); if (t < 0) return false; lead(g.rules[(size_t)i].ex, t); ch = true; }
        else if (g.height[(size_t)i] >= (1 << 20)) { int t = fresh_tok(); if (t < 0) return false; Ex o = g.rules[(size_t)i].ex; g.rules[(size_t)i].ex = mk(Ex::ALT, {tok(t), o}); ch = true; }
      }
      if (ch) continue;
      // left recursion
      for (int i = 0; i < nnt && !ch; i++) {
        std::set<int> s; a.corners(g.rules[(size_t)i].ex, s);
        std::vector<int> w(s.begin(), s.end());
        while (!w.empty()) { int x = w.back(); w.pop_back(); std::set<int> q; a.corners(g.rules[(size_t)x].ex, q); for (int y : q) if (s.insert(y).second) w.push_back(y); }
        if (s.count(i)) { int t = fresh_tok(); if (t < 0) return false; lead(g.rules[(size_t)i].ex, t); ch = true; }
      }
      if (ch) continue;
      if (!rightrec) for (int i = 0; i < nnt && !ch; i++) if (a.tail_cycle(i)) { int t = fresh_tok(); if (t < 0) return false; trail(g.rules[(size_t)i].ex, t); ch = true; }
      if (ch) continue;
      for (int i = 0; i < nnt; i++) if (!fix(g.rules[(size_t)i].ex, g.follow[(size_t)i], ch)) return false;
      if (!ch) return true;
    }
    return false;
  }
};
bool generate(Rng &r, int64_t size, Grammar &g) {
  for (int t = 0; t < 40; t++) {
    g = Grammar();
    Gen x(r, g);
    if (x.go(t > 20 ? 1 + size / 2 : size)) return true;
  }
  return false;
}

void preset(int which, Grammar &g) {
  g = Grammar();
  An a{g};
  auto T = [&](Tok t) { g.toks.push_back(t); return tok((int)g.toks.size() - 1); };
  auto L = [&](const char *s) { return T(lit(s)); };
  auto S = [&](std::vector<Ex> v) { return mk(Ex::SEQ, v); };
  if (which == 0) {
    Ex num = T(reg(cat({rep(chr('-'), 0, 1, "?"), rep(ranges({{'0', '9'}}, false), 1, -1, "++"), rep(cls(Set().set('.'), "[.]"), 0, 1, "?"), rep(ranges({{'0', '9'}}, false), 0, -1, "*+")})));
    Rx notq = ranges({{'"', '"'}, {'\\', '\\'}}, true); notq.cls_text = "[^\\\\\"]";
    Ex str = T(reg(cat({chr('"'), rep(alt({notq, cat({cls(Set().set('\\'), "\\\\"), cls(Set().set('"'), "[\"]")})}), 0, -1, "*+"), chr('"')})));
    Ex comma = L(","), lb = L("["), rb = L("]"), lc = L("{"), rc = L("}"), col = L(":"), f = L("false"), t = L("true"), n = L("null");
    g.rules = {{"Object", mk(Ex::ALT, {nt(1), nt(2), nt(3), nt(5), nt(6), nt(7), nt(8)})}, {"Number", num}, {"String", str},
               {"List", S({lb, mk(Ex::ALT, {rb, S({nt(0), mk(Ex::STAR, {S({comma, nt(0)})}), rb})})})}, {"DictEntry", S({nt(2), col, nt(0)})},
               {"Dict", S({lc, mk(Ex::ALT, {rc, S({nt(4), mk(Ex::STAR, {S({comma, nt(4)})}), rc})})})}, {"False", f}, {"True", t}, {"Null", n}};
  } else {
    Ex num = T(reg(rep(ranges({{'0', '9'}}, false), 1, -1, "+"))), eq = L("="), pl = L("+"), mu = L("*"), lp = L("("), rp = L(")");
    g.rules = {{"INPUT", S({nt(1), eq})}, {"EXPR", S({nt(2), mk(Ex::OPT, {S({pl, nt(1)})})})}, {"TERM", S({nt(3), mk(Ex::OPT, {S({mu, nt(2)})})})}, {"FACT", mk(Ex::ALT, {num, S({lp, nt(1), rp})})}};
  }
  a.run();
}

// ------------------------------------------------------------ printing
struct Printer {
  const Grammar &g; Rng &r; std::string o; bool lower = false;
  void sp() {
    double u = r.unit();
    if (u < 0.75) o += " "; else if (u < 0.85) o += "\n  "; else if (u < 0.9) o += "\t"; else if (u < 0.94) o += " /* | ; ' */ "; else if (u < 0.97) o += " // x : 'y'\n"; else o += "  ";
  }
  void token(int i) {
    const Tok &t = g.toks[(size_t)i];
    if (t.lit) { char q = t.text.find('\'') != std::string::npos || r.chance(0.3) ? '"' : '\''; if (t.text.find('"') != std::string::npos) q = '\''; o += q; o += t.text; o += q; }
    else o += "/" + t.text + "/";
    if (r.chance(0.04)) { o += "{" + std::to_string(r.below(9)) + "}"; }
  }
  void atom(const Ex &e) {
    switch (e.k) {
      case Ex::TOK: token(e.ref); break;
      case Ex::NT: o += g.rules[(size_t)e.ref].name; break;
      case Ex::OPT: case Ex::STAR: case Ex::PLUS:
        if (e.kids[0].k == Ex::TOK || e.kids[0].k == Ex::NT) atom(e.kids[0]); else {
          bool none = e.k == Ex::OPT && r.chance(0.25), before = none && r.chance(0.5);      // (x|) is another way to write x?
          o += "("; sp(); if (before) { o += "|"; sp(); } alts(e.kids[0]); sp(); if (none && !before) { o += "|"; sp(); } o += ")";
          if (none) return;
        }
        if (r.chance(0.2)) o += " ";
        o += e.k == Ex::OPT ? "?" : e.k == Ex::STAR ? "*" : "+";
        break;
      case Ex::SEQ: seq(e); break;
      default: o += "("; sp(); alts(e); sp(); o += ")"; break;
    }
  }
  void seq(const Ex &e) {
    if (e.k != Ex::SEQ) { atom(e); return; }
    for (size_t i = 0; i < e.kids.size(); i++) { if (i) sp(); if (e.kids[i].k == Ex::SEQ) seq(e.kids[i]); else atom(e.kids[i]); }
  }
  void alts(const Ex &e) {
    if (e.k == Ex::ALT) { for (size_t i = 0; i < e.kids.size(); i++) { if (i) { sp(); o += e.pri ? "|> " : r.chance(0.1) && e.kids[i].k != Ex::PRE && e.kids[i].k != Ex::LITS && !lower ? "|> " : "| "; } bool l = lower; lower = true; if (!e.pri && (e.kids[i].k == Ex::PRE || e.kids[i].k == Ex::LITS)) alts(e.kids[i]); else seq(e.kids[i]); lower = l; } }
    else if (e.k == Ex::PRE) { for (size_t i = 1; i < e.kids.size(); i++) { if (i > 1) { sp(); o += "| "; } seq(e.kids[0]); sp(); seq(e.kids[i]); } }
    else if (e.k == Ex::LITS) { for (size_t i = 0; i < e.kids.size(); i++) { if (i) { sp(); o += "| "; } token(e.kids[i].ref); } }
    else seq(e);
  }
};
std::string Grammar::print(Rng &r, std::string *inc) const {
  Printer p{*this, r, ""};
  style = r.chance(0.5) ? 0 : (int)r.range(1, 3);
  auto *e = ends; e[0].clear(); e[1].clear(); mid.assign(rules.size(), 0); int defined = 0;
  if (r.chance(0.6)) { p.o += "grammar G1;\n"; e->push_back({p.o.size() - 1, -1}); }
  size_t split = inc && rules.size() > 1 && r.chance(0.25) ? 1 + r.below(rules.size() - 1) : rules.size();
  // now and then a rule is defined again, or a file is included again: what is already there stays
  double dup = r.chance(0.12) ? 0.3 : 0;
  auto rule = [&](size_t i) { if (!mid[i]) mid[i] = ++defined; p.o += rules[i].name; p.sp(); p.o += ":"; p.sp(); p.alts(rules[i].ex); p.sp(); p.o += ";\n"; e->push_back({p.o.size() - 1, (int)i}); };
  auto include = [&] { p.o += "include"; p.sp(); p.o += "\"inc.cgr\""; p.sp(); p.o += ";\n"; e->push_back({p.o.size() - 1, -2}); };
  // now and then there are so many rules that ids do not fit a byte
  size_t many = r.chance(0.012) ? r.below(rules.size() + 1) : ~(size_t)0; int nmany = many == ~(size_t)0 ? 0 : (int)r.range(240, 700);
  unused = many && many < rules.size() ? nmany : 0;
  for (size_t i = 0; i < rules.size(); i++) {
    if (i && i == many) for (int k = 0; k < unused; k++) { defined++; p.o += "qq" + std::to_string(k) + (k % 7 || !k ? ":'a';\n" : ":'a'qq" + std::to_string(k - 1) + ";\n"); e->push_back({p.o.size() - 1, -3}); }
    if (i == split) { include(); if (r.chance(dup)) include(); e = &ends[1]; std::swap(*inc, p.o); }
    rule(i);
    if (r.chance(dup)) rule(e == ends || r.chance(0.5) ? r.below(i + 1) : split + r.below(i + 1 - split));
  }
  if (split < rules.size()) std::swap(*inc, p.o);
  return p.o;
}

std::vector<Grammar::File> Grammar::files(const std::string &dir, const std::string &text, const std::string &inc) const {
  std::vector<File> v{{dir + "g.cgr", text}};
  std::string name = style == 1 ? "sub/inc.cgr" : style == 2 ? dir + "inc.cgr" : style == 3 ? "sub/mid.cgr" : "inc.cgr";
  for (size_t i = 0; (i = v[0].text.find("\"inc.cgr\"", i)) != std::string::npos; i += name.size() + 2) v[0].text.replace(i + 1, 7, name);
  if (!ends[1].empty()) v.push_back({dir + (style == 1 || style == 3 ? "sub/inc.cgr" : "inc.cgr"), inc});
  if (!ends[1].empty() && style == 3) v.push_back({dir + "sub/mid.cgr", "/* one more */ include \"inc.cgr\" ;"});
  return v;
}

// ------------------------------------------------------------ sentences
std::string Grammar::sentence(Rng &r, int64_t budget, Rng *near) const {
  int64_t target = -1, emitted = 0;
  if (near) { Rng c = r; count_only(c, budget, target); target = target ? (int64_t)near->below((uint64_t)target) : -1; }
  return sentence_at(r, budget, near, target, emitted);
}
void Grammar::count_only(Rng r, int64_t budget, int64_t &n) const { int64_t e = 0; sentence_at(r, budget, nullptr, -1, e); n = e; }
std::string Grammar::sentence_at(Rng &r, int64_t budget, Rng *near, int64_t target, int64_t &emitted) const {
  std::string o; Set ext; bool first = true;
  Grammar &self = const_cast<Grammar &>(*this);
  An a{self};
  double wsp = r.chance(0.4) ? 0 : r.chance(0.5) ? 0.1 : 0.5;
  int64_t big = r.chance(0.2) ? 300 : 40;
  auto put = [&](int i) {
    const Tok &t = toks[(size_t)i]; std::string s;
    if (t.lit) s = t.text; else rx_sample(t.re, r, s, big);
    budget--;
    if (emitted++ == target && near) {           // almost the right token
      Rng &g = *near;
      double u = g.unit();
      if (u < 0.12) s.clear();
      else if (u < 0.22) s += s;
      else if (u < 0.32) { const Tok &x = toks[g.below(toks.size())]; s.clear(); if (x.lit) s = x.text; else rx_sample(x.re, g, s, big); }
      else if (t.lit) { size_t k = g.below(s.size() + 1); if (k < s.size() && g.chance(0.5)) s.erase(k, 1); else if (k < s.size() && g.chance(0.5)) s[k] = (char)g.range(32, 126); else s.insert(k, 1, s[g.below(s.size())]); }
      else { Rx x = t.re; int n = g.chance(0.25) ? 2 : 1; for (int i = 0; i < n; i++) { int k = (int)g.below((uint64_t)rx_count(x)); rx_near(x, g, k); } s.clear(); rx_sample(x, g, s, big); }
    }
    if (r.chance(wsp)) { int n = (int)r.logrange(1, 20); for (int k = 0; k < n; k++) o += " \t\r\n"[r.below(4)]; }
    else if (!first && !s.empty() && ext[(unsigned char)s[0]]) o += " ";
    o += s; ext = t.ext; first = false;
  };
  int depth = 0;
  std::function<void(const Ex &)> go = [&](const Ex &e) {
    bool tight = budget <= 0 || depth > 60;
    switch (e.k) {
      case Ex::TOK: put(e.ref); return;
      case Ex::NT: depth++; go(rules[(size_t)e.ref].ex); depth--; return;
      case Ex::SEQ: for (auto &k : e.kids) go(k); return;
      case Ex::LITS: go(e.kids[r.below(e.kids.size())]); return;
      case Ex::ALT: case Ex::PRE: {
        size_t b = e.k == Ex::PRE; if (b) go(e.kids[0]);
        size_t i = b + r.below(e.kids.size() - b);
        if (tight) { int best = 1 << 30; for (size_t k = b; k < e.kids.size(); k++) { int h = a.height(e.kids[k]); if (h < best) { best = h; i = k; } } }
        go(e.kids[i]); return;
      }
      case Ex::OPT: if (!tight && r.chance(0.6)) go(e.kids[0]); return;
      case Ex::STAR: case Ex::PLUS: { int64_t n = tight ? 0 : r.chance(0.15) ? r.logrange(1, 40) : (int64_t)r.below(4); if (e.k == Ex::PLUS && n == 0) n = 1; for (int64_t i = 0; i < n; i++) { if (i && budget <= 0) break; go(e.kids[0]); } return; }
    }
  };
  go(rules[0].ex);
  return o;
}

// ------------------------------------------------------------ reference parser
struct Reject {};
Ref Grammar::parse(const std::string &in) const {
  Ref R; int64_t pos = 0; std::vector<int> st;
  Grammar &self = const_cast<Grammar &>(*this);
  An a{self};
  auto skip = [&](int64_t p) { while (p < (int64_t)in.size() && ws((unsigned char)in[(size_t)p])) p++; return p; };
  auto next = [&]() -> int { int64_t p = skip(pos); return p < (int64_t)in.size() ? (unsigned char)in[(size_t)p] : 0; };
  std::function<void(const Ex &)> go = [&](const Ex &e) {
    switch (e.k) {
      case Ex::TOK: {
        const Tok &t = toks[(size_t)e.ref];
        pos = skip(pos);
        if (t.lit) { if (in.compare((size_t)pos, t.text.size(), t.text) != 0) throw Reject(); pos += (int64_t)t.text.size(); }
        else { int64_t q = rx_longest(t.re, in, pos); if (q < 0) throw Reject(); pos = q; }
        return;
      }
      case Ex::NT: {
        int i = (int)R.nodes.size();
        Node n; n.id = e.ref + 1; n.start = pos; n.end = -1; n.parent = st.empty() ? -1 : st.back(); n.pos_s = (int64_t)R.stream.size(); n.pos_e = -1;
        if (n.parent >= 0) R.nodes[(size_t)n.parent].kids.push_back(i);
        R.nodes.push_back(n);
        R.stream.push_back((1ull << 63) | ((uint64_t)n.id << 48) | (uint64_t)pos);
        st.push_back(i);
        go(rules[(size_t)e.ref].ex);
        st.pop_back();
        R.nodes[(size_t)i].end = pos; R.nodes[(size_t)i].pos_e = (int64_t)R.stream.size();
        R.stream.push_back(((uint64_t)n.id << 48) | (uint64_t)pos);
        return;
      }
      case Ex::SEQ: for (auto &k : e.kids) go(k); return;
      case Ex::LITS: {      // the longest one that is there
        int64_t p = skip(pos); const Ex *best = nullptr; size_t len = 0;
        for (auto &k : e.kids) { const std::string &x = toks[(size_t)k.ref].text; if (x.size() > len && in.compare((size_t)p, x.size(), x) == 0) { best = &k; len = x.size(); } }
        if (!best) throw Reject();
        go(*best); return;
      }
      case Ex::ALT: case Ex::PRE: {
        size_t b = e.k == Ex::PRE; if (b) go(e.kids[0]);
        int c = next();
        for (size_t i = b; i < e.kids.size(); i++) if (a.first(e.kids[i])[(size_t)c]) { go(e.kids[i]); return; }
        throw Reject();
      }
      case Ex::OPT: if (a.first(e.kids[0])[(size_t)next()]) go(e.kids[0]); return;
      case Ex::PLUS: go(e.kids[0]);  // fall through
      case Ex::STAR: while (a.first(e.kids[0])[(size_t)next()]) go(e.kids[0]); return;
    }
  };
  try { go(nt(0)); R.accept = true; R.end = pos; } catch (Reject &) {}
  return R;
}
}
