// C interface between a harness and the (instrumented) code under test.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
typedef const void *(*glue_parse_fn)(void *user, void *listener, const void *input);
typedef long (*glue_listener)(const void *symbol, uint64_t *values, int num, void *ctx);
typedef void (*glue_xfer)(int index, int new_index, void *ctx);
struct GlueApi {
  void *(*parser_new)(glue_parse_fn fn, void *user);
  void (*parser_delete)(void *);
  void *(*stage1_new)(const char *file, void *parser, size_t bank_size, int bank_num, int dry, int capture, char *err, size_t cap);
  void *(*stage2_new)(const char *file, size_t bank_size, int bank_num, int pid, void *ctx, void *counter, char *err, size_t cap);
  void *(*stage3_new)(const char *file, size_t bank_size, int bank_num, int pid, void *ctx, void *counter, char *err, size_t cap);
  int (*start)(void *runner, char *err, size_t cap);
  int (*wait)(void *runner, char *err, size_t cap);
  void (*destroy)(void *runner);
  void (*listen)(void *runner, int stage, glue_listener l, glue_xfer x);   // x == null: plain listener
  void *(*feed)(void *listener);
  const void *(*result)(void *stage1);
  size_t (*nchunks)(void *stage1);
  const uint64_t *(*chunk)(void *stage1, size_t i, size_t *words);
  const void *(*input)(void *runner);
  size_t (*input_size)(void *runner);
  void *(*counter_new)();
  void (*counter_delete)(void *);
  int (*counter_get)(void *);
  void (*symbol)(const void *sym, long *id, long *start, long *end);
  void *(*eh_globals)();
};
__attribute__((visibility("default"))) const GlueApi *glue_api();
}
