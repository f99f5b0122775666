// Interface to the whole library: grammar, code generator, Context.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
struct E2eSymbol {              // what an action sees through SymbolContext
  int machine;                  // index the action was attached with
  long start, end; int count, len;
  const char *p_start, *p_end;
  const uint64_t *values; int nvalues;
  char text[256]; size_t textlen;   // beginning of read()
  size_t readlen;
};
typedef void *(*e2e_action)(void *user, E2eSymbol *s);
struct E2eApi {
  void (*set_bank_size)(long);
  void (*set_action)(e2e_action, void *user);
  void *(*ctx_new)(const char *grammar, char *err, size_t cap);             // Context<char>
  void (*ctx_delete)(void *);
  int (*ctx_attach)(void *, const wchar_t *name, int slot, char *err, size_t cap);
  int (*ctx_parse)(void *, const char *path, int workers, char *err, size_t cap);
  void *(*gram_new)(const char *grammar, int optimize, char *err, size_t cap);    // Grammar<unsigned char>; optimize 2: by its constructor
  void (*gram_delete)(void *);
  int (*gram_ids)(void *, void (*cb)(const wchar_t *, int));
  void *(*parser_new)(void *gram, int dry, char *err, size_t cap);           // IParser
  void (*bad_alloc)();
  void (*parser_delete)(void *);
  int nslots;
};
__attribute__((visibility("default"))) const E2eApi *glue_e2e_api();
}
