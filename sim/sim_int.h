// Internal state of the simulator, shared by engine.cpp, tsanrt.cpp, mem.cpp and os.cpp.
#pragma once
#include "sim.h"
#include <cstring>
#include <pthread.h>
#include <semaphore.h>
#include <unordered_map>
#include <memory>

namespace sim {

const int MAXSLOT = 256;
extern int g_slots;   // slots in use so far
struct VC {
  uint32_t c[MAXSLOT];
  VC() { memset(c, 0, sizeof c); }
  void join(const VC &o) {
    for (int i = 0, n = g_slots; i < n; i++) if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};

const uint64_t ARENA_BASE = 0x100000000000ull, ARENA_SHIFT = 32;      // per process: 4 GB
const uint64_t SHADOW_BASE = 0x140000000000ull;                       // 1 byte per 8 bytes of arena
const int MAXPROC = 128;
const uint64_t STACK_BASE = 0x180000000000ull, STACK_STRIDE = 1ull << 31;
const uint64_t STACK_END = 0x200000000000ull;
const uint64_t MAP_BASE = 0x200000000000ull, MAP_SHIFT = 38;          // per process: 256 GB
const uint64_t SEM_BASE = 0x1F0000000ull;                             // fake, never mapped

enum FState { RUN, BLOCKED, SLEEP, DONE };
struct Proc;
struct Fiber {
  int uid, slot;
  Proc *proc;
  FState st = RUN;
  const void *wait_key = nullptr;
  uint64_t wake_at = 0;
  uint64_t evno = 0;
  uint32_t spin = 0;
  int64_t prio = 0;
  uint64_t stall_until = 0;
  VC vc;
  VC acq_pending, rel_fence;
  bool has_acq = false, has_rel = false;
  // engine
  void *sp = nullptr;
  void *stack = nullptr;
  size_t stack_size = 0;
  void *eh[2][2] = {{0, 0}, {0, 0}};
  int err_no = 0;
  pthread_t th;
  int baton = 0;
  void *(*fn)(void *) = nullptr;
  void *arg = nullptr, *ret = nullptr;
  std::function<void()> body;
  bool sut_thread = false, joined = false, detached = false;
  std::string name;
  uint64_t fault_nth[F_NKINDS] = {0};
  std::map<uint64_t, uint64_t> *fault_tab = nullptr;
  const void *last_pc = nullptr;
};

struct Obj {           // file, shared-memory object or anonymous memory
  int id, memfd = -1;
  std::string name;
  uint64_t size = 0;
  int refs = 0;
  bool anon = false;
  bool file = false;
};
struct Fd { Obj *obj = nullptr; uint64_t pos = 0; int flags = 0; bool used = false; bool cloexec = false; };
struct Mapping { uint64_t start, len, off; Obj *obj; int prot; bool shared; };
struct Sem {
  std::string name;
  int64_t value = 0;
  VC vc;
  int refs = 0;
  int nwait = 0;
};
struct SemHandle { Sem *sem; int refs; bool open; };

struct Proc {
  int idx, pid;
  std::string name;
  bool done = false, killed = false, harness = false;
  int exit_code = 0;
  VC end_vc;
  uint64_t events = 0, syscalls = 0;
  uint64_t kill_at = 0, kill_at_sys = 0;
  std::vector<Fd> fds;
  std::vector<Mapping> maps;       // sorted by start
  int map_hint = 0;
  uint64_t map_next = 0;
  std::map<uint64_t, SemHandle> sems;
  uint64_t sem_next = 0;
  uint64_t arena_next = 0;
  long allocs = 0;
  size_t alloc_bytes = 0;
  uint64_t fail_in = 0, fail_more = 0;
  struct Fiber *fail_fiber = nullptr;    // whose allocations fail; null: anybody's
  void (*bad_alloc)() = nullptr;
  std::map<const void *, int> streams;   // FILE* -> descriptor
  std::vector<Fiber *> fibers;
  int unjoined = 0;                // threads whose past is not yet ordered before the present
  std::map<std::string, int> sys_nth;
  std::vector<OsFaultPlan> plan;
  std::vector<uint8_t> image;      // its globals while another process runs
};

struct State {
  bool inited = false, running = false, baton = false, tracing = false;
  SchedCfg cfg;
  Rng rng{1}, frng{1};
  std::vector<Fiber *> fibers;      // by uid
  std::vector<Fiber *> live;        // not DONE, by uid order
  std::vector<std::unique_ptr<Proc>> procs;
  bool slot_used[MAXSLOT] = {false};
  uint32_t slot_clk[MAXSLOT] = {0};
  uint64_t events = 0, hash = 0, last_progress = 0;
  bool after = false;
  int fair = 0;                     // 0 normal, 1 probing for a hang, 2 permanently fair
  uint64_t fair_start = 0, fair_slice = 0;
  std::unordered_map<uint64_t, int> dec_map;
  std::map<std::tuple<int, int, uint64_t>, int64_t> flt_map;
  std::vector<uint64_t> pct_points;
  size_t pct_i = 0;
  int64_t pct_low = 0;
  uint64_t sim_ns = 0;
  uint64_t statehash = 0;
  bool sched_plain = true;
  uint64_t scan_words = 0, heap_limit = 0;
  bool alloc_failed = false;
  uint64_t work = 0, work_max = ~0ull;
  const char *work_cls = nullptr;
  std::map<std::string, Obj *> files, shms;
  std::map<std::string, Sem *> sems;
  std::map<std::pair<uint64_t, uint64_t>, Sem *> anon_sems;
  int next_obj = 1;
  std::vector<std::string> os_faults;
  std::vector<std::string> ignored;
  void *sched_sp = nullptr;
  Fiber *root = nullptr;
};
extern State S;
extern Fiber *g_cur;
extern int g_in;       // >0: inside the simulator itself; instrumentation is off
extern Proc *g_cp;

struct In { In() { g_in++; } ~In() { g_in--; } };
static inline bool on() { return g_cur && !g_in && !g_cur->proc->harness; }

void note_progress();
void point_impl(int kind, uint64_t tag, uint64_t val);
void state_update(uint64_t key, uint64_t oldv, uint64_t newv);
Fiber *make_fiber(Proc *p, const char *name, size_t stack_size);
void block_current(const void *key);
void wake_all(const void *key);
void fiber_exit();
void kill_proc(Proc *p);
void reap_proc(Proc *p);
void relock_release(VC &v);       // release current fiber's clock into v
void vc_acquire(const VC &v);
void maybe_free_slot(Fiber *f);

// locations
enum LKind { L_GLOBAL, L_ARENA, L_SHM, L_FILE, L_ANON, L_STACK };
struct Loc { LKind kind; uint64_t key; };  // key: canonical 8-byte-granule address
Loc locate(uint64_t a, size_t n, bool write, const void *pc);
void race_access(const Loc &l, uint64_t a, size_t n, bool write, bool atomic, const void *pc);
void plain_access(uint64_t a, size_t n, bool write, const void *pc);
void range_access(uint64_t a, size_t n, bool write, const void *pc);
Mapping *find_map(Proc *p, uint64_t a);

enum Ev { E_START = 1, E_PLAIN, E_ATOMIC, E_SYS, E_BLOCK, E_EXIT, E_HARNESS, E_YIELD, E_SPAWN, E_MEM, E_FREE };
}  // namespace sim
