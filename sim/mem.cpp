// Checked allocator for the code under test, and the mem* functions.
#include "sim_int.h"
#include <cstdlib>
#include <new>

namespace sim {
static inline uint8_t *shadow(uint64_t a) { return (uint8_t *)(SHADOW_BASE + ((a - ARENA_BASE) >> 3)); }
static inline bool in_arena(const void *p) { return (uint64_t)p - ARENA_BASE < ((uint64_t)MAXPROC << ARENA_SHIFT); }
struct Hdr { uint64_t magic, size; };
static const uint64_t MAGIC = 0xA110CA7ED0000000ull;
static const size_t RZ = 32;

static void *arena_alloc(size_t n, size_t align) {
  In in;
  Proc *p = g_cp;
  uint64_t base = ARENA_BASE + ((uint64_t)p->idx << ARENA_SHIFT);
  if (align < 16) align = 16;
  uint64_t user = (base + p->arena_next + sizeof(Hdr) + RZ + align - 1) / align * align;
  uint64_t end = user + ((n + 7) & ~7ull);
  if (S.heap_limit && p->alloc_bytes + n > S.heap_limit) violation("hang:memory", "memory use grows without bound (%zu bytes allocated)", p->alloc_bytes + n);
  if (end + RZ > base + (1ull << ARENA_SHIFT) - 4096) harness_error("simulated heap exhausted");
  p->arena_next = end + RZ - base;
  Hdr *h = (Hdr *)(user - sizeof(Hdr));
  h->magic = MAGIC; h->size = n;
  size_t words = n >> 3;
  memset(shadow(user), 8, words);
  if (n & 7) *shadow(user + (words << 3)) = (uint8_t)(n & 7);
  memset((void *)user, 0xCB, n < 65536 ? n : 65536);
  p->allocs++; p->alloc_bytes += n;
  if (S.heap_limit) note_progress();
  return (void *)user;
}
static void arena_free(void *q) {
  In in;
  uint64_t a = (uint64_t)q;
  int idx = (int)((a - ARENA_BASE) >> ARENA_SHIFT);
  Hdr *h = (Hdr *)(a - sizeof(Hdr));
  if ((a & 15) || h->magic != MAGIC) {
    if (!(a & 15) && h->magic == ~MAGIC) violation("memory:double-free", "heap block freed twice");
    violation("memory:bad-free", "free of something that is not a heap block");
  }
  if (g_cp && g_cp->idx != idx && g_cp->idx != 0) violation("memory:foreign", "heap block of another process freed");
  size_t n = h->size;
  if (on() && g_cp->unjoined > 1) {   // a free conflicts with any unsynchronised access
    size_t k = n < 4096 ? n : 4096;
    if (k) race_access(Loc{L_ARENA, a >> 3}, a, k, true, false, nullptr);
  }
  h->magic = ~MAGIC;
  memset(shadow(a), 0xFD, (n + 7) >> 3);
  memset(q, 0xDD, n < 65536 ? n : 65536);
  Proc *p = S.procs[idx].get();
  p->allocs--; p->alloc_bytes -= n;
}
static size_t arena_size(void *q) { return ((Hdr *)((uint64_t)q - sizeof(Hdr)))->size; }
void fail_alloc(Proc *p, uint64_t n, uint64_t more, void (*f)()) { p->fail_in = n; p->fail_more = more; p->bad_alloc = f; p->fail_fiber = nullptr; S.alloc_failed = false; }
void fail_alloc_here(Proc *p, uint64_t n, void (*f)()) { fail_alloc(p, n, 0, f); p->fail_fiber = g_cur; }
bool alloc_failed() { return S.alloc_failed; }
void set_heap_limit(uint64_t n) { S.heap_limit = n; }
static bool new_fails() {
  Proc *p = g_cp;
  if (!p->fail_in || (p->fail_fiber && p->fail_fiber != g_cur) || --p->fail_in) return false;
  if (p->fail_more) { p->fail_more--; p->fail_in = 1; }
  In in;
  S.alloc_failed = true; count_fault(F_NOMEM);
  if (S.tracing) trace("allocation fails (injected)");
  return true;
}
}  // namespace sim
using namespace sim;

extern "C" {
// ---- allocation by the code under test
void *__wrap_malloc(size_t n) { return on() ? arena_alloc(n, 16) : malloc(n); }
void *__wrap_calloc(size_t a, size_t b) {
  if (!on()) return calloc(a, b);
  void *p = arena_alloc(a * b, 16);
  In in; memset(p, 0, a * b);
  return p;
}
void __wrap_free(void *p) { if (!p) return; if (in_arena(p)) arena_free(p); else free(p); }
void *__wrap_realloc(void *p, size_t n) {
  if (p && !in_arena(p)) return realloc(p, n);
  if (!p) return __wrap_malloc(n);
  if (!on()) harness_error("realloc of simulated block outside simulation");
  void *q = arena_alloc(n, 16);
  { In in; size_t o = arena_size(p); memcpy(q, p, o < n ? o : n); }
  arena_free(p);
  return q;
}
void *__wrap_aligned_alloc(size_t al, size_t n) { return on() ? arena_alloc(n, al) : aligned_alloc(al, n); }
int __wrap_posix_memalign(void **r, size_t al, size_t n) { if (!on()) return posix_memalign(r, al, n); *r = arena_alloc(n, al); return 0; }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)__wrap_malloc(n); In in; memcpy(p, s, n); return p; }
void *__wrap__Znwm(size_t n) {
  if (!on()) return ::operator new(n);
  if (new_fails()) { g_cp->bad_alloc(); __builtin_unreachable(); }
  return arena_alloc(n, 16);
}
void *__wrap__Znam(size_t n) { return __wrap__Znwm(n); }
void *__wrap__ZnwmRKSt9nothrow_t(size_t n, const std::nothrow_t &t) { if (!on()) return ::operator new(n, t); return new_fails() ? nullptr : arena_alloc(n, 16); }
void *__wrap__ZnamRKSt9nothrow_t(size_t n, const std::nothrow_t &t) { return __wrap__ZnwmRKSt9nothrow_t(n, t); }
void __wrap__ZdlPv(void *p) { if (!p) return; if (in_arena(p)) arena_free(p); else ::operator delete(p); }
void __wrap__ZdaPv(void *p) { __wrap__ZdlPv(p); }
void __wrap__ZdlPvm(void *p, size_t) { __wrap__ZdlPv(p); }
void __wrap__ZdaPvm(void *p, size_t) { __wrap__ZdlPv(p); }
void __wrap__ZdlPvRKSt9nothrow_t(void *p, const std::nothrow_t &) { __wrap__ZdlPv(p); }
void __wrap__ZdaPvRKSt9nothrow_t(void *p, const std::nothrow_t &) { __wrap__ZdlPv(p); }

// ---- bulk memory operations by the code under test
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  if (on() && n) { range_access((uint64_t)s, n, false, nullptr); range_access((uint64_t)d, n, true, nullptr); }
  return memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
  if (on() && n) { range_access((uint64_t)s, n, false, nullptr); range_access((uint64_t)d, n, true, nullptr); }
  return memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
  if (on() && n) range_access((uint64_t)d, n, true, nullptr);
  return memset(d, c, n);
}
int __wrap_memcmp(const void *a, const void *b, size_t n) {
  if (on() && n) { range_access((uint64_t)a, n, false, nullptr); range_access((uint64_t)b, n, false, nullptr); }
  return memcmp(a, b, n);
}
}
