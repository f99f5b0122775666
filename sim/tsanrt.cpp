// Our own implementation of the ThreadSanitizer instrumentation interface: scheduling points,
// happens-before race detection (vector clocks) and memory checking.
#include "sim_int.h"
#include <cstdio>
#include <cstdlib>
#include <sys/mman.h>
#include <unistd.h>

namespace sim {

// ------------------------------------------------------------ locations
Mapping *find_map(Proc *p, uint64_t a) {
  auto &v = p->maps;
  if ((size_t)p->map_hint < v.size()) {
    Mapping &m = v[p->map_hint];
    if (a - m.start < ((m.len + 4095) & ~4095ull)) return &m;
  }
  for (size_t i = 0; i < v.size(); i++)
    if (a - v[i].start < ((v[i].len + 4095) & ~4095ull)) { p->map_hint = (int)i; return &v[i]; }
  return nullptr;
}

static bool is_ignored(const char *c) { for (auto &s : S.ignored) if (!strncmp(c, s.c_str(), s.size())) return true; return false; }
static const char *rw(bool w) { return w ? "write to" : "read of"; }

Loc locate(uint64_t a, size_t n, bool write, const void *pc) {
  Proc *p = g_cp;
  if (a >= MAP_BASE && a < MAP_BASE + ((uint64_t)MAXPROC << MAP_SHIFT)) {
    if ((int)((a - MAP_BASE) >> MAP_SHIFT) != p->idx)
      violation("memory:foreign", "%s memory mapped by another process", rw(write));
    Mapping *m = find_map(p, a);
    if (!m || a + n > m->start + ((m->len + 4095) & ~4095ull)) {
      // may span two adjacent mappings
      if (m && n > 1 && find_map(p, a + n - 1)) return Loc{L_FILE, a >> 3};
      violation("memory:unmapped", "%s unmapped memory (%zu bytes, %s)", rw(write), n, m ? "past the end of a mapping" : "no mapping");
    }
    if (!(m->prot & (write ? PROT_WRITE : PROT_READ)))
      violation("memory:prot", "%s memory mapped without that permission", rw(write));
    uint64_t off = a - m->start + m->off;
    if (!m->obj->anon && off + n > ((m->obj->size + 4095) & ~4095ull))
      violation("crash:BUS", "%s a mapping beyond the end of the object", rw(write));
    return Loc{m->obj->file ? L_FILE : m->obj->anon ? L_ANON : L_SHM, (1ull << 60) | ((uint64_t)m->obj->id << 40) | (off >> 3)};
  }
  if (a - ARENA_BASE < ((uint64_t)MAXPROC << ARENA_SHIFT)) {
    if ((int)((a - ARENA_BASE) >> ARENA_SHIFT) != p->idx)
      violation("memory:foreign", "%s heap memory that belongs to another process", rw(write));
    const uint8_t *sh = (const uint8_t *)(SHADOW_BASE + ((a - ARENA_BASE) >> 3));
    uint64_t e = a + n;
    for (uint64_t g = a >> 3; g <= (e - 1) >> 3; g++, sh++) {
      uint8_t s = *sh;
      if (s == 8) continue;
      uint64_t hi = e < ((g + 1) << 3) ? e - (g << 3) : 8;
      if (s == 0xFD && is_ignored("memory:use-after-free")) continue;
      if (s == 0xFD) violation("memory:use-after-free", "%s freed heap memory", rw(write));
      if ((s > 8 || hi > s) && is_ignored("memory:heap-overflow")) continue;
      if (s > 8 || hi > s) violation("memory:heap-overflow", "%s %zu bytes outside a heap block", rw(write), n);
    }
    return Loc{L_ARENA, a >> 3};
  }
  if (a >= STACK_BASE && a < STACK_END) return Loc{L_STACK, a >> 3};
  if (a < 65536) violation("crash:SEGV", "%s near-null address", rw(write));
  return Loc{L_GLOBAL, (a >> 3) ^ ((uint64_t)p->idx << 52)};
}

// ------------------------------------------------------------ race detector
struct Acc { uint32_t clk; uint8_t slot, mask; uint8_t w : 1, at : 1; };
struct Cell { uint64_t key; uint8_t n; Acc a[6]; };
struct Table {
  std::vector<Cell> v; size_t used = 0; uint64_t mask = 0;
  void grow() {
    size_t ncap = v.empty() ? 4096 : v.size() * 2;
    std::vector<Cell> o; o.swap(v);
    v.resize(ncap); for (auto &c : v) c.key = ~0ull;
    mask = ncap - 1; used = 0;
    for (auto &c : o) if (c.key != ~0ull) { *slot(c.key) = c; used++; }
  }
  Cell *slot(uint64_t k) {
    uint64_t i = (k * 0x9E3779B97F4A7C15ull >> 20) & mask;
    while (v[i].key != ~0ull && v[i].key != k) i = (i + 1) & mask;
    return &v[i];
  }
  Cell *get(uint64_t k) {
    if (used * 2 >= v.size()) grow();
    Cell *c = slot(k);
    if (c->key == ~0ull) { c->key = k; c->n = 0; used++; }
    return c;
  }
};
static Table T;
static bool g_shared_cell;   // the last cell accessed is known to be used by several threads

static const char *kname(LKind k) { return k == L_SHM ? "shared memory" : k == L_ARENA ? "heap" : k == L_STACK ? "stack" : k == L_FILE ? "input mapping" : k == L_ANON ? "anonymous mapping" : "global"; }

static inline void cell_access(Cell *c, LKind kind, uint8_t mask, bool w, bool at) {
  Fiber *f = g_cur;
  uint8_t me = (uint8_t)f->slot;
  uint32_t clk = f->vc.c[me];
  int keep = 0;
  g_shared_cell = false;
  for (int i = 0; i < c->n; i++) {
    Acc &e = c->a[i];
    bool hb = e.clk <= f->vc.c[e.slot];
    if (e.slot != me) {
      g_shared_cell = true;
      if ((e.mask & mask) && (e.w || w) && !(e.at && at) && !hb && !is_ignored("race:")) {
        violation("race:data", "unsynchronised %s (%s%s) and earlier %s by another thread, in %s", w ? "write" : "read", f->name.c_str(), at ? ", atomic" : "", e.w ? "write" : "read", kname(kind));
      }
    }
    // drop what the new access subsumes
    bool drop = hb && !(e.mask & ~mask) && (w || (!e.w && e.slot == me)) && (e.at || !at);
    if (!drop) c->a[keep++] = e;
  }
  c->n = (uint8_t)keep;
  if (c->n == 6) { for (int i = 0; i < 5; i++) c->a[i] = c->a[i + 1]; c->n = 5; }
  c->a[c->n++] = Acc{clk, me, mask, (uint8_t)w, (uint8_t)at};
}
void race_access(const Loc &l, uint64_t a, size_t n, bool write, bool atomic, const void *) {
  if (l.kind == L_FILE) return;   // read-only input
  uint64_t key = l.key;
  bool shared = false;
  uint64_t o = a & 7;
  while (n) {
    size_t k = 8 - o < n ? 8 - o : n;
    uint8_t mask = (uint8_t)(((1u << k) - 1) << o);
    cell_access(T.get(key), l.kind, mask, write, atomic);
    shared |= g_shared_cell;
    key++; n -= k; o = 0;
  }
  g_shared_cell = shared;
}

void work_limit(uint64_t n, const char *cls) { S.work_max = n > ~0ull - S.work ? ~0ull : S.work + n; S.work_cls = cls; }
uint64_t work_done() { return S.work; }
void plain_access(uint64_t a, size_t n, bool write, const void *pc) {
  In in;
  if (++S.work > S.work_max) {
    if (!S.work_cls) finish(1, "", "");
    violation(S.work_cls, "does not end: %lu steps of work so far", (unsigned long)S.work);
  }
  Loc l = locate(a, n, write, pc);
  if (l.kind == L_SHM && S.sched_plain) {
    point_impl(E_PLAIN, l.key, write);
    if (write) note_progress();
    // the mapping may have changed while we were away
    l = locate(a, n, write, pc);
  }
  if (l.kind != L_SHM && g_cp->unjoined <= 1) return;    // the only thread: nothing to race with, now or later
  race_access(l, a, n, write, false, pc);
  if (g_shared_cell && l.kind != L_SHM && S.sched_plain) {
    point_impl(E_PLAIN, l.kind == L_GLOBAL ? 5 : l.key, write);
    locate(a, n, write, pc);
    race_access(l, a, n, write, false, pc);
  }
}
void range_access(uint64_t a, size_t n, bool write, const void *pc) {
  if (!n) return;
  In in;
  Loc l = locate(a, n, write, pc);
  if (l.kind == L_SHM) { point_impl(E_MEM, l.key, n * 2 + write); if (write) note_progress(); l = locate(a, n, write, pc); }
  else if (g_cp->unjoined <= 1) return;
  if (n <= (1u << 20) || l.kind == L_SHM) race_access(l, a, n, write, false, pc);
}

void mem_read(const void *p, size_t n, const char *) { if (g_cur) range_access((uint64_t)p, n, false, nullptr); }
void mem_write(void *p, size_t n, const char *) { if (g_cur) range_access((uint64_t)p, n, true, nullptr); }
void mem_check(const void *p, size_t n, bool w, const char *) { if (g_cur && n) { In in; locate((uint64_t)p, n, w, nullptr); } }

// ------------------------------------------------------------ synchronisation
struct SyncTab { std::unordered_map<uint64_t, VC> m; };
static SyncTab Y;
void vc_acquire(const VC &v) { g_cur->vc.join(v); }
void relock_release(VC &v) { v.join(g_cur->vc); g_cur->vc.c[g_cur->slot]++; }

enum { MO_RELAXED = 0, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQREL, MO_SEQ };
static inline bool acq(int mo) { return mo == MO_CONSUME || mo == MO_ACQUIRE || mo == MO_ACQREL || mo == MO_SEQ; }
static inline bool rel(int mo) { return mo == MO_RELEASE || mo == MO_ACQREL || mo == MO_SEQ; }

static inline void do_acquire(uint64_t key, int mo) {
  auto it = Y.m.find(key);
  if (it == Y.m.end()) return;
  if (acq(mo)) g_cur->vc.join(it->second);
  else { g_cur->acq_pending.join(it->second); g_cur->has_acq = true; }
}
static inline void do_store_release(uint64_t key, int mo, bool rmw) {
  // a plain store starts a new release sequence; an RMW continues the existing one
  VC &v = Y.m[key];
  if (!rmw) v = VC();
  if (rel(mo)) { v.join(g_cur->vc); g_cur->vc.c[g_cur->slot]++; }
  else if (g_cur->has_rel) v.join(g_cur->rel_fence);
}
static inline uint64_t canon(const Loc &l) { return l.kind == L_GLOBAL ? 7 : l.kind == L_STACK ? (l.key & 0xfff) : l.key; }

template <typename U> static inline Loc apoint(const volatile U *p, bool w, const void *pc, bool sched = true) {
  uint64_t a = (uint64_t)p;
  Loc l = locate(a, sizeof(U), w, pc);
  if (sched) { point_impl(E_ATOMIC, canon(l), w); l = locate(a, sizeof(U), w, pc); }
  race_access(l, a, sizeof(U), w, true, pc);
  return l;
}
template <typename U> static U a_load(const volatile U *p, int mo, const void *pc) {
  if (!on()) return __atomic_load_n(p, __ATOMIC_SEQ_CST);
  In in;
  Loc l = apoint(p, false, pc);
  U v = *p;
  do_acquire(l.key, mo);
  S.hash = mix64(S.hash, (uint64_t)v);
  return v;
}
template <typename U> static void a_store(volatile U *p, U v, int mo, const void *pc) {
  if (!on()) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; }
  In in;
  Loc l = apoint(p, true, pc);
  U o = *p;
  *p = v;
  do_store_release(l.key, mo, false);
  S.hash = mix64(S.hash, (uint64_t)v);
  state_update(canon(l), (uint64_t)o, (uint64_t)v);
  if (S.tracing) trace("atomic store %lx: %ld -> %ld", (unsigned long)(l.key & 0xffffff), (long)o, (long)v);
  if (o != v) note_progress();
}
template <typename U, typename F> static U a_rmw(volatile U *p, int mo, const void *pc, F fn) {
  if (!on()) { U o, n; do { o = *p; n = fn(o); } while (!__sync_bool_compare_and_swap(p, o, n)); return o; }
  In in;
  Loc l = apoint(p, true, pc);
  U o = *p, n = fn(o);
  *p = n;
  do_acquire(l.key, mo);
  do_store_release(l.key, mo, true);
  S.hash = mix64(S.hash, (uint64_t)n);
  state_update(canon(l), (uint64_t)o, (uint64_t)n);
  note_progress();
  return o;
}
template <typename U> static int a_cas(volatile U *p, U *exp, U v, int mo, int fmo, bool weak, const void *pc) {
  if (!on()) return __atomic_compare_exchange_n(p, exp, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
  In in;
  Loc l = apoint(p, false, pc);
  U o = *p;
  S.hash = mix64(S.hash, (uint64_t)o);
  if (o == *exp && !(weak && fault(F_CAS))) {
    race_access(l, (uint64_t)p, sizeof(U), true, true, pc);
    *p = v;
    do_acquire(l.key, mo);
    do_store_release(l.key, mo, true);
    state_update(canon(l), (uint64_t)o, (uint64_t)v);
    if (S.tracing) trace("cas %lx: %ld -> %ld", (unsigned long)(l.key & 0xffffff), (long)o, (long)v);
    note_progress();
    return 1;
  }
  do_acquire(l.key, fmo);
  *exp = o;
  return 0;
}
}  // namespace sim

using namespace sim;
#define PC __builtin_return_address(0)
#define ON if (!on()) return
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void *) {}
void __tsan_vptr_update(void **p, void *) { ON; plain_access((uint64_t)p, 8, true, PC); }
void __tsan_vptr_read(void **p) { ON; plain_access((uint64_t)p, 8, false, PC); }
void __tsan_read_range(void *p, unsigned long n) { ON; range_access((uint64_t)p, n, false, PC); }
void __tsan_write_range(void *p, unsigned long n) { ON; range_access((uint64_t)p, n, true, PC); }
#define RW(N) \
  void __tsan_read##N(void *p) { ON; plain_access((uint64_t)p, N, false, PC); } \
  void __tsan_write##N(void *p) { ON; plain_access((uint64_t)p, N, true, PC); } \
  void __tsan_read##N##_pc(void *p, void *) { ON; plain_access((uint64_t)p, N, false, PC); } \
  void __tsan_write##N##_pc(void *p, void *) { ON; plain_access((uint64_t)p, N, true, PC); } \
  void __tsan_volatile_read##N(void *p) { ON; plain_access((uint64_t)p, N, false, PC); } \
  void __tsan_volatile_write##N(void *p) { ON; plain_access((uint64_t)p, N, true, PC); } \
  void __tsan_unaligned_read##N(void *p) { ON; plain_access((uint64_t)p, N, false, PC); } \
  void __tsan_unaligned_write##N(void *p) { ON; plain_access((uint64_t)p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define AT(B, U) \
  U __tsan_atomic##B##_load(const volatile U *p, int mo) { return a_load(p, mo, PC); } \
  void __tsan_atomic##B##_store(volatile U *p, U v, int mo) { a_store(p, v, mo, PC); } \
  U __tsan_atomic##B##_exchange(volatile U *p, U v, int mo) { return a_rmw(p, mo, PC, [v](U) { return v; }); } \
  U __tsan_atomic##B##_fetch_add(volatile U *p, U v, int mo) { return a_rmw(p, mo, PC, [v](U o) { return (U)(o + v); }); } \
  U __tsan_atomic##B##_fetch_sub(volatile U *p, U v, int mo) { return a_rmw(p, mo, PC, [v](U o) { return (U)(o - v); }); } \
  U __tsan_atomic##B##_fetch_and(volatile U *p, U v, int mo) { return a_rmw(p, mo, PC, [v](U o) { return (U)(o & v); }); } \
  U __tsan_atomic##B##_fetch_or(volatile U *p, U v, int mo) { return a_rmw(p, mo, PC, [v](U o) { return (U)(o | v); }); } \
  U __tsan_atomic##B##_fetch_xor(volatile U *p, U v, int mo) { return a_rmw(p, mo, PC, [v](U o) { return (U)(o ^ v); }); } \
  U __tsan_atomic##B##_fetch_nand(volatile U *p, U v, int mo) { return a_rmw(p, mo, PC, [v](U o) { return (U) ~(o & v); }); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile U *p, U *e, U v, int mo, int fmo) { return a_cas(p, e, v, mo, fmo, false, PC); } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile U *p, U *e, U v, int mo, int fmo) { return a_cas(p, e, v, mo, fmo, true, PC); } \
  U __tsan_atomic##B##_compare_exchange_val(volatile U *p, U e, U v, int mo, int fmo) { a_cas(p, &e, v, mo, fmo, false, PC); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
  if (!on()) return;
  In in;
  point_impl(E_ATOMIC, 3, (uint64_t)mo);
  if (acq(mo) && g_cur->has_acq) { g_cur->vc.join(g_cur->acq_pending); g_cur->has_acq = false; g_cur->acq_pending = VC(); }
  if (rel(mo)) { g_cur->rel_fence = g_cur->vc; g_cur->has_rel = true; g_cur->vc.c[g_cur->slot]++; }
}
void __tsan_atomic_signal_fence(int) {}
}
