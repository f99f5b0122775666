// Random grammars, sentences, and an independent reference parser.
#pragma once
#include "../sim/sim.h"
#include <bitset>
#include <memory>
#include <string>
#include <vector>

namespace gram {
typedef std::bitset<256> Set;
struct Rx {                     // regular expression
  enum K { CLS, CAT, ALT, REP } k = CLS;
  Set cls; std::string cls_text;
  std::vector<Rx> kids;
  int min = 0, max = -1;        // REP
  std::string quant;            // how it is written
};
struct Tok { bool lit; std::string text; Rx re; Set first, ext; };
struct Ex {
  enum K { TOK, NT, SEQ, ALT, OPT, STAR, PLUS, PRE, LITS } k = SEQ;   // LITS: a choice of literals; PRE: kids[0] common prefix, kids[1..] alternatives
  int ref = -1;
  bool pri = false;             // ALT: written with |>, an earlier alternative is preferred
  std::vector<Ex> kids;
};
struct Rule { std::string name; Ex ex; };
struct Node { int id; int64_t start, end; int parent; std::vector<int> kids; int64_t pos_s, pos_e; };
struct Ref {                    // what the reference parser makes of an input
  bool accept = false;
  int64_t end = -1;             // end of the accepted part
  std::vector<Node> nodes;      // in order of their start; end < 0 while open when the input was rejected
  std::vector<uint64_t> stream; // start/end events in order: bit 63 start, id, offset
};
struct Grammar {
  std::vector<Tok> toks;
  std::vector<Rule> rules;      // rule i has id i+1; rule 0 is the root
  std::vector<Set> first; std::vector<Set> follow; std::vector<bool> nullable; std::vector<int> height;
  mutable std::vector<std::pair<size_t, int>> ends[2];   // where the statements printed last end: rule, -1 grammar, -2 include, -3 an unused rule
  mutable std::vector<int> mid;          // rule -> its number in the order of definition, in what was printed last
  mutable int unused = 0;                // unused rules qq0, qq1... in it
  std::string print(sim::Rng &r, std::string *included) const;   // may split off an included file named "inc.cgr"
  struct File { std::string name, text; };
  mutable int style = 0;                 // how the included file is named: 0 beside, 1 in a directory below, 2 absolute, 3 through a third file
  std::vector<File> files(const std::string &dir, const std::string &text, const std::string &inc) const;   // the included file, if any, comes second
  std::string sentence(sim::Rng &r, int64_t budget, sim::Rng *near = nullptr) const;   // near: one of its tokens is not quite right
  std::string sentence_at(sim::Rng &r, int64_t budget, sim::Rng *near, int64_t target, int64_t &emitted) const;
  void count_only(sim::Rng r, int64_t budget, int64_t &n) const;
  Ref parse(const std::string &in) const;
};
bool generate(sim::Rng &r, int64_t size, Grammar &g);
void preset(int which, Grammar &g);      // 0 json, 1 calculator
}
