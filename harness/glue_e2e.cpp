// Context, Grammar and the code generator (instrumented where the code runs during a parse).
#include <cstdio>
#include <cstring>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>
#include <unordered_map>
#include <set>
#include <limits>
#include "Exception.hpp"
#include "CompositeATN.hpp"
#include "Grammar.hpp"
#include "CodeGenEM64T.hpp"
#include "Context.hpp"
#include "glue_e2e.h"
using namespace Centaurus;
long sim_bank_size = 4096;
namespace {
const int NSLOTS = 48;
e2e_action g_action; void *g_user; const char *g_window;
typedef Context<char> Ctx;
template <int I> void *action(const SymbolContext<char> &c) {
  E2eSymbol s;
  s.machine = I;
  s.p_start = c.start(); s.p_end = c.end(); s.len = c.len(); s.count = c.count();
  s.nvalues = 0;
  int cap = s.count < 0 ? 0 : s.count < 100000 ? s.count : 100000;
  std::vector<uint64_t> vals((size_t)cap);
  s.values = vals.data();
  for (int i = 1; i <= cap; i++) { vals[(size_t)i - 1] = (uint64_t)(uintptr_t)c.template value<void>(i); s.nvalues++; }
  std::string t = c.read();
  s.readlen = t.size(); s.textlen = t.size() < sizeof s.text ? t.size() : sizeof s.text;
  for (size_t i = 0; i < s.textlen; i++) s.text[i] = t[i];
  s.start = s.end = -1;
  return g_action(g_user, &s);
}
typedef CppReductionCallback<char> Cb;
Cb table[NSLOTS];
template <int I> struct Fill { static void go() { table[I] = &action<I>; Fill<I - 1>::go(); } };
template <> struct Fill<-1> { static void go() {} };
template <typename F> void *guarded(F f, char *err, size_t cap) {
  err[0] = 0;
  try { return f(); }
  catch (const std::exception &e) { snprintf(err, cap, "E:%s", e.what()); return nullptr; }
  catch (...) { snprintf(err, cap, "E:unknown exception"); return nullptr; }
}
void set_bank_size(long n) { sim_bank_size = n; }
void set_action(e2e_action a, void *u) { g_action = a; g_user = u; }
void *ctx_new(const char *g, char *err, size_t cap) { return guarded([&]() -> void * { return new Ctx(g); }, err, cap); }
void ctx_delete(void *c) { delete static_cast<Ctx *>(c); }
int ctx_attach(void *c, const wchar_t *name, int slot, char *err, size_t cap) {
  return guarded([&]() -> void * { static_cast<Ctx *>(c)->attach(Identifier(name), table[slot]); return c; }, err, cap) != nullptr;
}
int ctx_parse(void *c, const char *path, int workers, char *err, size_t cap) {
  return guarded([&]() -> void * { static_cast<Ctx *>(c)->parse(path, workers); return c; }, err, cap) != nullptr;
}
typedef Grammar<unsigned char> Gram;
void *gram_new(const char *g, int opt, char *err, size_t cap) {
  return guarded([&]() -> void * { if (opt == 2) return new Gram(g); Gram *x = new Gram(); try { x->parse(g); if (opt) x->optimize(); } catch (...) { delete x; throw; } return x; }, err, cap);
}
void gram_delete(void *g) { delete static_cast<Gram *>(g); }
int gram_ids(void *g, void (*cb)(const wchar_t *, int)) { static_cast<Gram *>(g)->enum_machines(cb); return static_cast<Gram *>(g)->get_machine_num(); }
void *e_parser_new(void *g, int dry, char *err, size_t cap) {
  return guarded([&]() -> void * {
    const Gram &gr = *static_cast<Gram *>(g);
    if (dry) return static_cast<IParser *>(new DryParserEM64T<unsigned char>(gr));
    return static_cast<IParser *>(new ParserEM64T<unsigned char>(gr));
  }, err, cap);
}
void bad_alloc() { throw std::bad_alloc(); }
void e_parser_delete(void *p) { delete static_cast<IParser *>(p); }
}
extern "C" const E2eApi *glue_e2e_api() {
  Fill<NSLOTS - 1>::go();
  static const E2eApi a = {set_bank_size, set_action, ctx_new, ctx_delete, ctx_attach, ctx_parse, gram_new, gram_delete, gram_ids, e_parser_new, bad_alloc, e_parser_delete, NSLOTS};
  return &a;
}
