#include "sim_int.h"
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cerrno>
#include <csignal>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <link.h>
#include <algorithm>
#include <tuple>

namespace sim {
State S;
Fiber *g_cur = nullptr;
int g_in = 0;
Proc *g_cp = nullptr;
int g_slots = 0;
Result *g_res = nullptr;
static uint8_t *g_bits = nullptr;
const char *fault_names[F_NKINDS] = {"spurious_cas_failure", "eintr", "stall", "late_start", "slow_callback",
                                     "syscall_error", "process_kill", "input_truncated", "input_corrupted", "queue_delay", "short_read", "allocation_failure"};
static void (*g_at_finish)(void) = nullptr;
void (*at_finish(void (*f)(void)))(void) { auto o = g_at_finish; g_at_finish = f; return o; }

int64_t Rng::logrange(int64_t a, int64_t b) {
  if (b <= a) return a;
  double la = std::log((double)a + 1), lb = std::log((double)b + 2);
  int64_t v = (int64_t)(std::exp(la + (lb - la) * unit()) - 1);
  return v < a ? a : v > b ? b : v;
}
uint64_t mix64(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
uint64_t hash_str(const char *s) { uint64_t h = 1469598103934665603ull; while (*s) h = (h ^ (uint8_t)*s++) * 1099511628211ull; return h; }

// ------------------------------------------------------------ finishing
[[noreturn]] void finish(int status, const char *cls, const char *msg) {
  g_in++;
  Result *r = g_res;
  snprintf(r->cls, sizeof r->cls, "%s", cls);
  snprintf(r->msg, sizeof r->msg, "%s", msg);
  r->hash = S.hash; r->events = S.events; r->sim_ns = S.sim_ns + S.events * 20;
  r->statehash_n = 0;
  if (g_at_finish) g_at_finish();
  fflush(stdout); fflush(stderr);
  __atomic_store_n(&r->status, status, __ATOMIC_SEQ_CST);
  _exit(0);
}
void ignore_class(const char *prefix) { S.ignored.push_back(prefix); }
[[noreturn]] void violation(const char *cls, const char *fmt, ...) {
  g_in++;
  static char buf[1600];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (S.tracing) fprintf(stderr, "VIOLATION-CLASS %s: %s\n", cls, buf);
  finish(2, cls, buf);
}
[[noreturn]] void harness_error(const char *fmt, ...) {
  g_in++;
  static char buf[1600];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  finish(3, "harness-error", buf);
}
bool tracing() { return S.tracing; }
void trace(const char *fmt, ...) {
  if (!S.tracing) return;
  g_in++;
  char buf[600];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  fprintf(stderr, "%8lu %-14s %s\n", (unsigned long)S.events, g_cur ? g_cur->name.c_str() : "-", buf);
  g_in--;
}

// ------------------------------------------------------------ crash handling
static const char *g_outside;
void outside(const char *w) { g_outside = w; }
static void on_signal(int sig, siginfo_t *si, void *) {
  const char *n = sig == SIGSEGV ? "SEGV" : sig == SIGBUS ? "BUS" : sig == SIGABRT ? "ABRT" : sig == SIGFPE ? "FPE" : sig == SIGILL ? "ILL" : "CPU";
  static char cls[64], msg[400];
  if (g_outside && !g_cur) {
    snprintf(cls, sizeof cls, sig == SIGXCPU ? "hang:setup" : "crash:setup");
    snprintf(msg, sizeof msg, "%s: %s", g_outside, sig == SIGXCPU ? "does not end" : n);
    finish(2, cls, msg);
  }
  if (sig == SIGXCPU) {
    if (g_cur && !g_cur->proc->harness) {
      finish(2, "hang:cpu", "no scheduling point reached for a very long time (endless loop inside one step)");
    }
    finish(3, "harness-error", "CPU time limit in harness");
  }
  uint64_t a = (uint64_t)si->si_addr;
  bool in_stack = a >= STACK_BASE && a < STACK_END;
  snprintf(cls, sizeof cls, "crash:%s", n);
  const char *where = sig == SIGABRT ? "(abort/assert/terminate)" : a < 65536 ? "near null" : in_stack ? "in a thread stack (overflow)" : "at a wild or unmapped address";
  snprintf(msg, sizeof msg, "thread '%s' crashed: signal %s %s", g_cur ? g_cur->name.c_str() : "-", n, where);
  if (S.tracing) { fprintf(stderr, "CRASH %s addr=%p\n", msg, (void *)a); }
  if (!g_cur) finish(3, "harness-error", msg);
  finish(2, cls, msg);
}

void init(Result *r, uint8_t *bits, bool baton, bool trace_) {
  g_res = r; g_bits = bits;
  S.baton = baton; S.tracing = trace_;
  r->status = 0;
  for (auto reg : {std::make_pair(ARENA_BASE, (uint64_t)MAXPROC << ARENA_SHIFT), std::make_pair(SHADOW_BASE, ((uint64_t)MAXPROC << ARENA_SHIFT) >> 3)}) {
    void *p = mmap((void *)reg.first, reg.second, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)reg.first) { perror("sim: arena mmap"); _exit(97); }
  }
  static char alt[65536];
  stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGXCPU}) sigaction(s, &sa, nullptr);
  S.inited = true;
}

// ------------------------------------------------------------ context switching
extern "C" void *(*sim_eh_globals[2])();
void *(*sim_eh_globals[2])() = {nullptr, nullptr};

extern "C" void sim_switch(void **save_sp, void *new_sp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

static void fiber_main();
extern "C" void sim_fiber_entry() { fiber_main(); __builtin_trap(); }

static void futex_wait(int *a, int v) { syscall(SYS_futex, a, FUTEX_WAIT, v, nullptr, nullptr, 0); }
static void futex_wake(int *a) { syscall(SYS_futex, a, FUTEX_WAKE, 1, nullptr, nullptr, 0); }

static void *baton_thread(void *p) {
  Fiber *f = (Fiber *)p;
  stack_t ss; ss.ss_sp = malloc(65536); ss.ss_size = 65536; ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  while (!__atomic_load_n(&f->baton, __ATOMIC_ACQUIRE)) futex_wait(&f->baton, 0);
  __atomic_store_n(&f->baton, 0, __ATOMIC_RELAXED);
  fiber_main();
  return nullptr;
}

// ------------------------------------------------------------ globals of the processes
struct Range { uint8_t *p; size_t n; };
static std::vector<Range> g_globals;
static size_t g_globals_size;
void private_globals(const void *addr) {
  struct Arg { uint64_t a; } arg{(uint64_t)addr};
  dl_iterate_phdr([](dl_phdr_info *i, size_t, void *u) -> int {
    uint64_t a = ((Arg *)u)->a, relro = 0; bool mine = false;
    for (int k = 0; k < i->dlpi_phnum; k++) {
      auto &h = i->dlpi_phdr[k]; uint64_t s = i->dlpi_addr + h.p_vaddr;
      if (h.p_type == PT_LOAD && a - s < h.p_memsz) mine = true;
      if (h.p_type == PT_GNU_RELRO) relro = (s + h.p_memsz) & ~4095ull;
    }
    if (!mine) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++) {
      auto &h = i->dlpi_phdr[k];
      if (h.p_type != PT_LOAD || !(h.p_flags & PF_W)) continue;
      uint64_t s = i->dlpi_addr + h.p_vaddr, e = s + h.p_memsz;
      if (relro > s && relro < e) s = relro;
      for (auto &r : g_globals) if ((uint64_t)r.p == s) return 1;
      g_globals.push_back({(uint8_t *)s, (size_t)(e - s)}); g_globals_size += e - s;
    }
    return 1;
  }, &arg);
}
static void save_globals(std::vector<uint8_t> &v) { v.resize(g_globals_size); uint8_t *o = v.data(); for (auto &r : g_globals) { memcpy(o, r.p, r.n); o += r.n; } }
static void swap_globals(Proc *from, Proc *to) {
  if (from == to || !g_globals_size) return;
  save_globals(from->image);
  const uint8_t *o = to->image.data();
  for (auto &r : g_globals) { memcpy(r.p, o, r.n); o += r.n; }
}

static void switch_to(Fiber *t) {
  Fiber *f = g_cur;
  if (t == f) return;
  g_res->switches++;
  f->err_no = errno;
  if (S.tracing) trace("-> switch to %s", t->name.c_str());
  if (!S.baton) {
    for (int i = 0; i < 2; i++) if (sim_eh_globals[i]) memcpy(f->eh[i], sim_eh_globals[i](), 16);
    swap_globals(g_cp, t->proc);
    g_cur = t; g_cp = t->proc;
    for (int i = 0; i < 2; i++) if (sim_eh_globals[i]) memcpy(sim_eh_globals[i](), t->eh[i], 16);
    int in = g_in;
    sim_switch(&f->sp, t->sp);
    g_in = in;
  } else {
    int in = g_in;
    swap_globals(g_cp, t->proc);
    g_cur = t; g_cp = t->proc;
    __atomic_store_n(&t->baton, 1, __ATOMIC_RELEASE);
    futex_wake(&t->baton);
    while (!__atomic_load_n(&f->baton, __ATOMIC_ACQUIRE)) futex_wait(&f->baton, 0);
    __atomic_store_n(&f->baton, 0, __ATOMIC_RELAXED);
    g_in = in;
  }
  errno = f->err_no;
}

Fiber *make_fiber(Proc *p, const char *name, size_t stack_size) {
  In in;
  Fiber *f = new Fiber;
  f->uid = (int)S.fibers.size();
  f->proc = p;
  p->unjoined++;
  int s = -1;
  for (int i = 0; i < MAXSLOT - 1; i++) if (!S.slot_used[i]) { s = i; break; }
  if (s < 0) finish(1, "", "");   // more threads than the simulator holds: the run says nothing
  if (s >= g_slots) g_slots = (s + 16) & ~15;
  S.slot_used[s] = true;
  f->slot = s;
  f->name = std::string(name) + "#" + std::to_string(f->uid);
  if (g_cur) { g_cur->vc.c[g_cur->slot]++; f->vc.join(g_cur->vc); }
  f->vc.c[s] = S.slot_clk[s] + 1;
  if (stack_size < 65536) stack_size = 65536;
  stack_size = (stack_size + 4095) & ~4095ull;
  f->stack_size = stack_size;
  uint64_t base = STACK_BASE + (uint64_t)f->uid * STACK_STRIDE;
  if (base + STACK_STRIDE > STACK_END || stack_size > STACK_STRIDE - 65536) harness_error("too many threads created / stack too large");
  // room for instrumentation and for the harness' callbacks on top of what was asked for
  size_t real = stack_size + 262144;
  uint64_t lo = base + STACK_STRIDE - real;
  void *m = mmap((void *)lo, real, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (m != (void *)lo) harness_error("stack mmap failed");
  f->stack = m; f->stack_size = real;
  if (!S.baton) {
    uint64_t *sp = (uint64_t *)(lo + real - 64);
    *--sp = 0;
    *--sp = (uint64_t)&sim_fiber_entry;
    for (int i = 0; i < 6; i++) *--sp = 0;
    f->sp = sp;
  } else {
    pthread_attr_t at; pthread_attr_init(&at);
    pthread_attr_setstack(&at, m, real);
    if (pthread_create(&f->th, &at, baton_thread, f)) harness_error("pthread_create failed");
    pthread_attr_destroy(&at);
  }
  S.fibers.push_back(f); S.live.push_back(f); p->fibers.push_back(f);
  g_res->threads++;
  f->prio = 1000000 + (int64_t)S.rng.below(1000000);
  if (!S.cfg.replay && !p->harness && S.fair != 2 && S.frng.chance(S.cfg.rate[F_LATE])) {
    f->stall_until = S.events + (uint64_t)S.frng.logrange(50, S.cfg.stall_max);
    g_res->faults[F_LATE]++;
  }
  return f;
}

static void fiber_main() {
  Fiber *f = g_cur;
  g_in = 0;
  try {
    if (f->sut_thread) f->ret = f->fn(f->arg);
    else f->body();
  } catch (...) {
    violation("crash:terminate", "uncaught exception escaped from thread '%s'", f->name.c_str());
  }
  fiber_exit();
}

void maybe_free_slot(Fiber *f) {
  if (f->slot >= 0 && f->st == DONE) {
    S.slot_clk[f->slot] = f->vc.c[f->slot] + 1;
    S.slot_used[f->slot] = false;
    f->slot = -1;
  }
}

// ------------------------------------------------------------ scheduling
static const uint32_t SPIN = 64;
static const uint64_t FAIR_SLICE = 4096;

static Fiber *next_rr(Fiber *cur) {
  // next runnable in uid order after cur (cyclic); may be cur itself
  size_t n = S.live.size(), i = 0;
  for (; i < n; i++) if (S.live[i]->uid > cur->uid) break;
  for (size_t k = 0; k < n; k++) {
    Fiber *g = S.live[(i + k) % n];
    if (g != cur && g->st == RUN) return g;
  }
  return cur->st == RUN ? cur : nullptr;
}
static int count_runnable() { int n = 0; for (auto f : S.live) n += f->st == RUN; return n; }

static void describe(char *buf, size_t cap) {
  size_t o = 0;
  for (auto f : S.live) {
    int k = snprintf(buf + o, cap - o, "%s(%s) ", f->name.c_str(), f->st == RUN ? "spinning" : f->st == BLOCKED ? "blocked" : "sleeping");
    if (k < 0 || (size_t)k >= cap - o) break;
    o += k;
  }
}

static uint64_t dkey(int uid, uint64_t evno) { return ((uint64_t)uid << 44) | evno; }

static Fiber *wake_sleeper() {
  Fiber *b = nullptr;
  for (auto f : S.live) if (f->st == SLEEP && (!b || f->wake_at < b->wake_at)) b = f;
  if (!b) return nullptr;
  uint64_t now = S.sim_ns + S.events * 20;
  if (b->wake_at > now) S.sim_ns += b->wake_at - now;
  b->st = RUN;
  return b;
}

// Chooses who runs next.  `must`: current cannot continue (blocked/done); `forced`: current has been spinning.
static void choose(bool must, bool forced) {
  Fiber *cur = g_cur;
  if (S.fair) {
    // fair phase: round robin with long slices, no faults, nothing recorded
    if (!must && S.events - S.fair_slice < FAIR_SLICE) return;
    S.fair_slice = S.events;
    Fiber *t = next_rr(cur);
    if (!t) t = wake_sleeper();
    if (!t) { char b[900]; describe(b, sizeof b); violation("hang:deadlock", "no thread can run: %s", b); }
    if (t != cur) switch_to(t);
    return;
  }
  Fiber *def = (must || forced) ? next_rr(cur) : cur;
  if (!def) {
    def = wake_sleeper();
    if (!def) { char b[900]; describe(b, sizeof b); violation("hang:deadlock", "no thread can run: %s", b); }
  }
  Fiber *pick = def;
  if (S.cfg.replay) {
    auto it = S.dec_map.find(dkey(cur->uid, cur->evno));
    if (it != S.dec_map.end() && (size_t)it->second < S.fibers.size()) {
      Fiber *t = S.fibers[it->second];
      if (t->st == RUN) pick = t;
    }
  } else {
    bool stalled_cur = cur->stall_until > S.events;
    if (S.cfg.strategy == 1) {
      if (forced) cur->prio = --S.pct_low;
      while (S.pct_i < S.pct_points.size() && S.events >= S.pct_points[S.pct_i]) { S.pct_i++; cur->prio = --S.pct_low; }
      Fiber *b = nullptr;
      for (auto f : S.live) if (f->st == RUN && f->stall_until <= S.events && (!b || f->prio > b->prio)) b = f;
      if (b) pick = b;
    } else {
      double p = S.after ? S.cfg.p_after : S.cfg.p_switch;
      if (must || forced || stalled_cur || S.rng.unit() < p) {
        // random runnable, not stalled
        int n = 0;
        for (auto f : S.live) n += f->st == RUN && f->stall_until <= S.events;
        if (n) {
          int k = (int)S.rng.below(n);
          for (auto f : S.live) if (f->st == RUN && f->stall_until <= S.events && k-- == 0) { pick = f; break; }
        } else {
          n = count_runnable();
          if (n) { int k = (int)S.rng.below(n); for (auto f : S.live) if (f->st == RUN && k-- == 0) { pick = f; break; } }
        }
      }
    }
    if (pick != def) {
      Result *r = g_res;
      if (r->ndec < Result::MAXDEC) r->dec[r->ndec++] = Decision{cur->uid, cur->evno, pick->uid};
      else r->dec_overflow = 1;
    }
  }
  S.after = false;
  if (pick != cur) switch_to(pick);
}

static void die_if_killed() {
  if (g_cur->proc->killed) { choose(true, false); __builtin_trap(); }
}

static void check_live() {
  uint64_t quiet = S.events - S.last_progress;
  if (S.fair == 0) {
    uint64_t lim = 20000 + 3000ull * S.live.size();
    if (S.events >= S.cfg.max_events) { S.fair = 2; S.fair_slice = S.events; S.fair_start = S.events; }
    else if (quiet > lim) { S.fair = 1; S.fair_start = S.events; S.fair_slice = S.events; for (auto f : S.live) f->stall_until = 0; }
  } else {
    if (S.fair == 1 && S.last_progress > S.fair_start) { S.fair = 0; return; }
    uint64_t base = std::max(S.fair_start, S.last_progress);
    // long enough for every thread to have scanned the largest buffer several times
    if (S.events - base > (FAIR_SLICE * 4 + 6 * S.scan_words) * (S.live.size() + 1)) {
      char b[900]; describe(b, sizeof b);
      violation("hang:livelock", "no progress for %lu steps under fair scheduling: %s", (unsigned long)(S.events - base), b);
    }
    if (S.fair == 2 && S.events > S.cfg.max_events * 16 + 40000000ull) {
      char b[900]; describe(b, sizeof b);
      violation("hang:budget", "not finished after %lu steps: %s", (unsigned long)S.events, b);
    }
  }
}

void note_progress() {
  S.last_progress = S.events;
  g_cur->spin = 0;
  S.after = true;
  g_res->progress++;
  if (!S.cfg.replay && !S.fair && S.cfg.rate[F_STALL] > 0 && !g_cur->proc->harness && S.frng.chance(S.cfg.rate[F_STALL])) {
    g_cur->stall_until = S.events + (uint64_t)S.frng.logrange(50, S.cfg.stall_max);
    g_res->faults[F_STALL]++;
  }
}
void state_update(uint64_t key, uint64_t o, uint64_t n) {
  if (o == n) return;
  S.statehash ^= mix64(key, o) ^ mix64(key, n);
  if (g_bits) {
    uint64_t b = mix64(S.statehash, 77) & (STATEBITS - 1);
    g_bits[b >> 3] |= (uint8_t)(1u << (b & 7));
  }
}

void point_impl(int kind, uint64_t tag, uint64_t val) {
  Fiber *f = g_cur;
  g_in++;
  f->evno++; S.events++; f->spin++;
  Proc *p = f->proc;
  p->events++;
  S.hash = mix64(S.hash ^ tag, ((uint64_t)f->uid << 8 | (uint64_t)kind) + val * 31);
  if (p->kill_at && p->events >= p->kill_at && !p->killed) {
    p->kill_at = 0;
    g_res->faults[F_KILL]++;
    kill_proc(p);
    die_if_killed();
  }
  if ((S.events & 15) == 0) for (auto g : S.live) if (g->st == SLEEP && g->wake_at <= S.sim_ns + S.events * 20) g->st = RUN;
  if ((S.events & 255) == 0) check_live();
  bool forced = f->spin >= SPIN;
  if (forced) { f->spin = 0; g_res->forced++; }
  choose(false, forced);
  g_in--;
}

void sleep_switch() {
  // time only passes when everybody else is idle, or at the normal pace of events
  g_cur->spin = 0;
  choose(true, false);
}
void block_current(const void *key) {
  In in;
  Fiber *f = g_cur;
  f->st = BLOCKED; f->wait_key = key;
  f->evno++; S.events++;
  S.hash = mix64(S.hash, (uint64_t)f->uid << 8 | E_BLOCK);
  f->spin = 0;
  if ((S.events & 255) == 0) check_live();
  choose(true, false);
}
void wake_all(const void *key) {
  for (auto f : S.live) if (f->st == BLOCKED && f->wait_key == key) { f->st = RUN; f->wait_key = nullptr; }
}
void fiber_exit() {
  g_in++;
  Fiber *f = g_cur;
  f->evno++; S.events++;
  S.hash = mix64(S.hash, (uint64_t)f->uid << 8 | E_EXIT);
  note_progress();
  f->st = DONE;
  S.live.erase(std::find(S.live.begin(), S.live.end(), f));
  f->vc.c[f->slot]++;
  wake_all(f);
  if (f->detached) maybe_free_slot(f);
  if (S.tracing) trace("thread ends");
  if (f == S.root) finish(1, "", "");
  choose(true, false);
  __builtin_trap();
}

void kill_proc(Proc *p) {
  // all threads stop at once; the kernel releases descriptors and mappings; named objects stay
  p->killed = true;
  g_res->kills++;
  if (S.tracing) trace("process %s (pid %d) is killed", p->name.c_str(), p->pid);
  for (auto f : p->fibers) if (f->st != DONE) {
    p->end_vc.join(f->vc);
    f->st = DONE;
    S.live.erase(std::find(S.live.begin(), S.live.end(), f));
    wake_all(f);
  }
  reap_proc(p);
  p->done = true;
  S.last_progress = S.events;
  wake_all(p);
}

// ------------------------------------------------------------ public
bool active() { return g_cur && !g_cur->proc->harness; }
int cur_uid() { return g_cur ? g_cur->uid : -1; }
Proc *cur_proc() { return g_cur ? g_cur->proc : nullptr; }
uint64_t now_events() { return S.events; }
void point(int kind, uint64_t tag, uint64_t val) { if (g_cur) point_impl(E_HARNESS, mix64((uint64_t)kind, tag), val); }
void progress() { if (g_cur) { In in; note_progress(); } }
void yield() { if (!g_cur) return; In in; g_cur->spin = SPIN; point_impl(E_YIELD, 0, 0); }
void block_on(const void *key) { block_current(key); }
void wake(const void *key) { In in; wake_all(key); note_progress(); }
void count_fault(int k) { g_res->faults[k]++; }
void probe(int i) { g_res->probes[i & 63]++; }
void set_scan_words(uint64_t n) { S.scan_words = n; }
void sched_plain(bool on) { S.sched_plain = on; }

bool fault(int kind, int64_t *arg, int64_t argmax) {
  Fiber *f = g_cur;
  if (!f) return false;
  uint64_t nth = ++f->fault_nth[kind];
  if (S.fair) return false;
  if (S.cfg.replay) {
    auto it = S.flt_map.find(std::make_tuple(kind, f->uid, nth));
    if (it == S.flt_map.end()) return false;
    if (arg) *arg = it->second;
    g_res->faults[kind]++;
    return true;
  }
  if (!S.frng.chance(S.cfg.rate[kind])) return false;
  int64_t a = argmax > 0 ? (int64_t)S.frng.below((uint64_t)argmax) : 0;
  if (arg) *arg = a;
  if (g_res->nfault < Result::MAXFAULT) g_res->flt[g_res->nfault++] = Fault{kind, f->uid, nth, a};
  else return false;
  g_res->faults[kind]++;
  return true;
}

Proc *spawn(int pid, const char *name, std::function<int()> m) {
  In in;
  if (S.procs.size() >= (size_t)MAXPROC) harness_error("too many processes");
  S.procs.emplace_back(new Proc);
  Proc *p = S.procs.back().get();
  p->idx = (int)S.procs.size() - 1; p->pid = pid; p->name = name;
  p->map_next = MAP_BASE + ((uint64_t)p->idx << MAP_SHIFT) + 0x10000;
  p->sem_next = SEM_BASE + ((uint64_t)p->idx << 20) + 64;
  p->arena_next = 64;
  p->fds.resize(3); for (auto &fd : p->fds) fd.used = true;
  if (g_globals_size) { Proc *r = S.procs[0].get(); if (g_cp == r) save_globals(p->image); else p->image = r->image; }
  g_res->procs++;
  Fiber *f = make_fiber(p, name, 8 << 20);
  f->body = [p, m]() {
    int rc = m();
    g_in++;
    // exit(): remaining threads die with the process
    for (auto g : std::vector<Fiber *>(p->fibers)) if (g != g_cur && g->st != DONE) {
      g->st = DONE;
      S.live.erase(std::find(S.live.begin(), S.live.end(), g));
      p->end_vc.join(g->vc);
      wake_all(g);
    }
    p->exit_code = rc;
    g_cur->vc.c[g_cur->slot]++;
    p->end_vc.join(g_cur->vc);
    reap_proc(p);
    p->done = true;
    wake_all(p);
    g_in--;
  };
  note_progress();
  return p;
}
int join_proc(Proc *p) {
  while (!p->done) block_current(p);
  In in;
  for (auto f : p->fibers) {
    if (f->st != DONE) { // main thread still in its epilogue
      continue;
    }
    g_cur->vc.join(f->vc); maybe_free_slot(f);
  }
  g_cur->vc.join(p->end_vc);
  return p->killed ? -9 : p->exit_code;
}
bool proc_killed(Proc *p) { return p->killed; }
bool proc_done(Proc *p) { return p->done; }
void kill_at_event(Proc *p, uint64_t n) { p->kill_at = n; }
void kill_at_syscall(Proc *p, uint64_t n) { p->kill_at_sys = n; }
void kill_now(Proc *p) { In in; if (!p->done) { g_res->faults[F_KILL]++; kill_proc(p); } }
uint64_t proc_events(Proc *p) { return p->events; }
uint64_t proc_syscalls(Proc *p) { return p->syscalls; }
int proc_pid(Proc *p) { return p->pid; }
Fiber *spawn_thread(const char *name, std::function<void()> fn) {
  In in;
  Fiber *f = make_fiber(g_cur->proc, name, 8 << 20);
  f->body = fn;
  note_progress();
  return f;
}
void join_thread(Fiber *f) {
  while (f->st != DONE) block_current(f);
  In in;
  g_cur->vc.join(f->vc);
  f->joined = true; f->proc->unjoined--;
  maybe_free_slot(f);
}

const void *mapping_base(const void *q) {
  In in;
  Mapping *m = find_map(g_cp, (uint64_t)q);
  if (!m) return nullptr;
  uint64_t a = m->start;
  for (bool more = true; more;) {
    more = false;
    for (auto &x : g_cp->maps) if (x.start + ((x.len + 4095) & ~4095ull) == a) { a = x.start; more = true; break; }
  }
  return (const void *)a;
}
void run(const SchedCfg &cfg, std::function<void()> root) {
  S.cfg = cfg;
  S.rng = Rng(mix64(cfg.seed, 0x5c4ed)); S.frng = Rng(mix64(cfg.seed, 0xfa017));
  S.hash = 0x1234567;
  if (cfg.replay) {
    for (auto &d : cfg.decisions) S.dec_map[dkey(d.uid, d.evno)] = d.target;
    for (auto &f : cfg.faults) S.flt_map[std::make_tuple(f.kind, f.uid, f.nth)] = f.arg;
  }
  if (cfg.strategy == 1) {
    for (int i = 0; i < cfg.pct_depth; i++) S.pct_points.push_back(S.rng.below(cfg.pct_len) + 1);
    std::sort(S.pct_points.begin(), S.pct_points.end());
  }
  S.procs.emplace_back(new Proc);
  Proc *p = S.procs.back().get();
  p->idx = 0; p->pid = 1; p->name = "harness"; p->harness = true;
  p->map_next = MAP_BASE + 0x10000; p->sem_next = SEM_BASE + 64; p->arena_next = 64;
  p->fds.resize(3); for (auto &fd : p->fds) fd.used = true;
  Fiber *f = make_fiber(p, "root", 8 << 20);
  f->body = root;
  S.root = f;
  static Fiber boot;
  boot.uid = -1; boot.proc = p; boot.slot = MAXSLOT - 1; boot.name = "boot";
  S.running = true;
  S.last_progress = 0;
  if (!S.baton) {
    g_cur = f; g_cp = p;
    sim_switch(&S.sched_sp, f->sp);
  } else {
    g_cur = f; g_cp = p;
    __atomic_store_n(&f->baton, 1, __ATOMIC_RELEASE);
    futex_wake(&f->baton);
    for (;;) pause();
  }
  harness_error("scheduler returned");
}
}  // namespace sim
