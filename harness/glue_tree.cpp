// Compiled together with the repository's stage runners (instrumented).  Variants:
//   (default)      non-recursive reducers, in-process tuple hand-off
//   -DVAR_REC      recursive reducers
//   -DPYCENTAURUS  non-recursive reducers with serialised hand-off (what the Python library uses)
#include <string>
#include <sstream>
#include <vector>
#include <cstdio>
#include <cstring>
#include "Exception.hpp"
#include "Stage1Runner.hpp"
#if VAR_REC
#include "Stage2Runner.hpp"
#include "Stage3Runner.hpp"
#else
#include "Stage2RunnerNonRecursive.hpp"
#include "Stage3RunnerNonRecursive.hpp"
#endif
#include "glue.h"
#include <cxxabi.h>
using namespace Centaurus;
namespace {
struct StubParser : IParser {
  glue_parse_fn fn; void *user;
  StubParser(glue_parse_fn f, void *u) : fn(f), user(u) {}
  const void *operator()(BaseListener *l, const void *input) override { return fn(user, l, input); }
};
template <typename F> void *guarded(F f, char *err, size_t cap) {
  err[0] = 0;
  try { return f(); }
  catch (const std::exception &e) { snprintf(err, cap, "E:%s", e.what()); return nullptr; }
  catch (...) { snprintf(err, cap, "E:unknown exception"); return nullptr; }
}
void *parser_new(glue_parse_fn f, void *u) { return static_cast<IParser *>(new StubParser(f, u)); }
void parser_delete(void *p) { delete static_cast<IParser *>(p); }
void *stage1_new(const char *f, void *p, size_t bs, int bn, int dry, int cap, char *err, size_t ec) {
  return guarded([&]() -> void * { return static_cast<BaseRunner *>(new Stage1Runner(f, static_cast<IParser *>(p), bs, bn, dry != 0, cap != 0)); }, err, ec);
}
void *stage2_new(const char *f, size_t bs, int bn, int pid, void *ctx, void *counter, char *err, size_t ec) {
  return guarded([&]() -> void * { return static_cast<BaseRunner *>(new Stage2Runner(f, bs, bn, pid, ctx, static_cast<std::atomic<int> *>(counter))); }, err, ec);
}
void *stage3_new(const char *f, size_t bs, int bn, int pid, void *ctx, void *counter, char *err, size_t ec) {
  return guarded([&]() -> void * { return static_cast<BaseRunner *>(new Stage3Runner(f, bs, bn, pid, ctx, static_cast<std::atomic<int> *>(counter))); }, err, ec);
}
int start(void *r, char *err, size_t ec) { return guarded([&]() -> void * { static_cast<BaseRunner *>(r)->start(); return r; }, err, ec) != nullptr; }
int wait_(void *r, char *err, size_t ec) { return guarded([&]() -> void * { static_cast<BaseRunner *>(r)->wait(); return r; }, err, ec) != nullptr; }
void destroy(void *r) { delete static_cast<BaseRunner *>(r); }
void listen_(void *r, int stage, glue_listener l, glue_xfer x) {
  ReductionListener rl = reinterpret_cast<ReductionListener>(l);
  BaseRunner *b = static_cast<BaseRunner *>(r);
  if (x) b->register_python_listener(rl, reinterpret_cast<TransferListener>(x));
  else if (stage == 2) static_cast<Stage2Runner *>(b)->register_listener(rl);
  else static_cast<Stage3Runner *>(b)->register_listener(rl);
}
void *feed(void *l) { return static_cast<BaseListener *>(l)->feed_callback(); }
Stage1Runner *s1(void *r) { return static_cast<Stage1Runner *>(static_cast<BaseRunner *>(r)); }
const void *result(void *r) { return s1(r)->get_result(); }
size_t nchunks(void *r) { return s1(r)->result_chunks().size(); }
const uint64_t *chunk(void *r, size_t i, size_t *w) {
  auto &c = s1(r)->result_chunks()[i];
  *w = c.size();
  return reinterpret_cast<const uint64_t *>(c.begin());
}
const void *input(void *r) { return static_cast<BaseRunner *>(r)->get_input(); }
size_t input_size(void *r) { return static_cast<BaseRunner *>(r)->get_input_size(); }
void *counter_new() { return new std::atomic<int>(0); }
void counter_delete(void *c) { delete static_cast<std::atomic<int> *>(c); }
int counter_get(void *c) { return static_cast<std::atomic<int> *>(c)->load(); }
void symbol(const void *s, long *id, long *st, long *en) {
  const SymbolEntry *e = static_cast<const SymbolEntry *>(s);
  *id = e->id; *st = e->start; *en = e->end;
}
const GlueApi api = {parser_new, parser_delete, stage1_new, stage2_new, stage3_new, start, wait_, destroy, listen_, feed, result, nchunks, chunk, input, input_size, counter_new, counter_delete, counter_get, symbol, nullptr};
}
extern "C" const GlueApi *glue_api() {
  static GlueApi a = api;
  a.eh_globals = reinterpret_cast<void *(*)()>(&abi::__cxa_get_globals);
  return &a;
}
