// Damaged grammar files and what may be made of them.
#pragma once
#include "job.h"
// how a grammar file is damaged (C21)
enum { D_NONE = 0, D_MISSING, D_NOINC, D_CUT, D_READ, D_OPEN, D_CYCLE, D_ZERO, D_BYTE, D_NOMEM, D_SYNTAX, D_MANY, D_NKINDS };
static const char *damage_names[] = {"nothing", "a missing file", "a missing include", "a file that ends early", "a failing read", "a failing open", "an include cycle", "zero-filled parts", "a changed byte", "failing allocations", "a mistake in a rule", "more rules than there are ids"};
struct Expect { bool must_fail = false, must_load = false, whole = true; std::vector<bool> rules; };

static void uses(const gram::Ex &e, std::vector<bool> &u) { if (e.k == gram::Ex::NT) u[(size_t)e.ref] = true; for (auto &k : e.kids) uses(k, u); }

// the files of the grammar in a directory, damaged, and what a loader may make of them
static Expect damage(int kind, uint64_t seed, const std::string &dir, std::vector<gram::Grammar::File> &out) {
  Expect x; x.rules.assign(g_gr.rules.size(), true);
  Rng r(seed);
  std::string f[2] = {g_text, g_inc};
  int which = !g_inc.empty() && r.chance(0.5);
  std::string &t = f[which];
  auto &ends = g_gr.ends[which];
  switch (kind) {
    case D_NONE: case D_READ: case D_OPEN: case D_NOMEM: x.must_load = true; break;
    case D_MISSING: x.must_fail = true; out = g_gr.files(dir, f[0], f[1]); out.erase(out.begin()); return x;
    case D_NOINC: {
      x.must_fail = true;
      if (!g_inc.empty() && r.chance(0.6)) { out = g_gr.files(dir, f[0], f[1]); out.erase(out.begin() + 1 + (long)r.below(out.size() - 1)); return x; }
      size_t at = ends[r.below(ends.size())].first; t.insert(at, " include \"nope.cgr\";"); break;
    }
    case D_CUT: {
      count_fault(F_TRUNC);
      double u = r.unit();
      size_t at = u < 0.5 ? (size_t)r.below(t.size()) : u < 0.9 ? ends[r.below(ends.size())].first + r.below(3) : (size_t)r.below(4);
      if (at > t.size()) at = t.size();
      if (u >= 0.5 && u < 0.7 && at) at -= 1 + r.below(std::min<size_t>(at, 3));
      size_t done = 0; int left = 0;
      for (auto &e : ends) if (e.first <= at) { done = e.first; left++; }
      t.resize(at);
      for (size_t i = done; i < at; i++) if (!isspace((unsigned char)t[i])) { x.must_fail = true; trace("the %s file ends inside a statement, at %zu", which ? "included" : "main", at); }
      x.rules.assign(x.rules.size(), false);
      for (int m = 0; m < 2; m++) {
        size_t n = m == which ? (size_t)left : g_gr.ends[m].size();
        if (m == 1) { bool inc = false; for (size_t i = 0; i < (which == 0 ? (size_t)left : g_gr.ends[0].size()); i++) inc |= g_gr.ends[0][i].second == -2; if (!inc) n = 0; }
        for (size_t i = 0; i < n; i++) if (g_gr.ends[m][i].second >= 0) x.rules[(size_t)g_gr.ends[m][i].second] = true;
      }
      if (!x.rules[0]) x.must_fail = true;            // nothing left to be the root
      for (size_t i = 0; i < x.rules.size(); i++) if (x.rules[i]) { std::vector<bool> u(x.rules.size()); uses(g_gr.rules[i].ex, u); for (size_t k = 0; k < u.size(); k++) if (u[k] && !x.rules[k]) x.must_fail = true; }
      for (bool b : x.rules) if (!b) x.whole = false;
      if (!x.must_fail) { x.must_load = true; probe(50); } else probe(51);
      break;
    }
    case D_CYCLE: { size_t at = r.chance(0.3) ? 0 : ends[r.below(ends.size())].first; std::string n = which && r.chance(0.5) ? "inc.cgr" : which && (g_gr.style & 1) ? dir + "g.cgr" : "g.cgr"; t.insert(at, " include \"" + n + "\"; "); x.must_fail = true; break; }
    case D_ZERO: { count_fault(F_CORRUPT); size_t a = r.below(t.size()), n = r.chance(0.5) ? t.size() - a : 1 + r.below(t.size() - a); for (size_t i = 0; i < n; i++) t[a + i] = 0; break; }
    case D_SYNTAX: {
      static const char *wrong[] = {": ;", "12 ", "Foo ;", "Foo:('a';", "Foo: 'a' ) ;", "include 'x';", "include x;", "grammar ;", "grammar X Foo:'a';", "Foo : nosuch ;", "Foo : [a] ;", "Foo : /\\q/ ;", "Foo : /[\\q]/ ;", "Foo : 'a'{} ;",
                                    "Foo : 'a'{1x} ;", "Foo : 'a'{1 ;", "Foo : /[--a]/ ;", "Foo : /[a--]/ ;", "Foo : /[-a]/;", "Foo : 5 ;", "Foo : Bar 'a' ; Bar : Foo 'b' | 'c' ;", "Foo : Foo 'a' | 'b' ;", "Foo :: 'a' ;", "Foo : 'a' ;;", "Foo : 'a'** ;",
                                    "Foo : * ;", "Foo = 'a';", "Foo : 'a' > 'b' ;", "Foo : 'a' | > 'b' ;", "include \"inc.cgr\" Foo : 'a' ;", "Foo Bar : 'a' ;", "Foo : 'a' ? + ;", ";"};
      static const char *open[] = {"Foo", "Foo :", "Foo : 'a'", "Foo : ('a'", "Foo : 'a", "Foo : /a", "Foo : /[a", "Foo : \"a", "Foo : /*", "/* x", "include \"g.cgr", "include", "include \"nope.cgr\"", "grammar", "grammar X", "Foo : 'a' |", "Foo : 'a'{1", "Foo : /(a/ ;", "Foo : /a|/ ;", "Foo : /a)/ ;"};
      x.must_fail = true;
      if (r.chance(0.3)) t += std::string("\n") + open[r.below(sizeof open / sizeof *open)];
      else t.insert(r.chance(0.2) ? 0 : ends[r.below(ends.size())].first, std::string(" ") + wrong[r.below(sizeof wrong / sizeof *wrong)] + " ");
      break;
    }
    case D_MANY: { x.must_fail = true; t += '\n'; int n = 32768 - (int)g_gr.rules.size() + (int)r.below(4); for (int i = 0; i < n; i++) t += "zz" + std::to_string(i) + ":'a';\n"; break; }
    case D_BYTE: { count_fault(F_CORRUPT); size_t a = r.below(t.size()); if (r.chance(0.3)) t.insert(a, 1, (char)r.range(128, 255)); else t[a] = (char)r.range(128, 255); break; }
  }
  out = g_gr.files(dir, f[0], f[1]);
  return x;
}

