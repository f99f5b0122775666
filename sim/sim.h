// Deterministic simulator: public interface used by the harnesses.
//
// The code under test ("SUT") is compiled with -fsanitize=thread and linked into a shared object whose
// references to the OS, the allocator and the mem* functions are redirected with -Wl,--wrap.  The
// __tsan_* entry points and the __wrap_* functions are implemented here: each is a scheduling point.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return p > 0 && unit() < p; }
  int64_t logrange(int64_t a, int64_t b);  // log-uniform
};
uint64_t mix64(uint64_t a, uint64_t b);
uint64_t hash_str(const char *s);

// ---------------------------------------------------------------- run specification
enum FaultKind {
  F_CAS = 0,      // weak compare-exchange fails spuriously
  F_EINTR,        // blocking call interrupted by a signal
  F_STALL,        // thread descheduled for a long time
  F_LATE,         // new thread starts late
  F_SLOWCB,       // listener callback takes long (extra scheduling points inside the callback)
  F_SYSCALL,      // system call fails
  F_KILL,         // process killed
  F_TRUNC,        // input truncated
  F_CORRUPT,      // input corrupted
  F_QDELAY,       // queue delivery delayed
  F_SHORT,        // read returns fewer bytes than asked for
  F_NOMEM,        // memory allocation fails
  F_NKINDS
};
extern const char *fault_names[F_NKINDS];

struct Decision { int32_t uid; uint64_t evno; int32_t target; };
struct Fault { int32_t kind; int32_t uid; uint64_t nth; int64_t arg; };

struct SchedCfg {
  bool replay = false;
  uint64_t seed = 1;
  int strategy = 0;        // 0 random walk, 1 PCT, 2 random walk with stalled victims
  double p_switch = 0.1;   // preemption probability at an ordinary point
  double p_after = 0.1;    // preemption probability right after a visible state change
  int pct_depth = 3;
  uint64_t pct_len = 2000;
  double rate[F_NKINDS] = {0};
  int stall_max = 20000;
  std::vector<Decision> decisions;  // replay
  std::vector<Fault> faults;        // replay (and planned faults in random mode)
  uint64_t max_events = 3000000;    // after this the scheduler turns fair and faults stop
};

// ---------------------------------------------------------------- result of a run (shared memory)
struct Result {
  int status;  // 0 incomplete, 1 held, 2 violation, 3 harness error
  char cls[64];
  char msg[1600];
  uint64_t hash, events, switches, forced, progress, sim_ns, statehash_n;
  uint64_t faults[F_NKINDS];
  uint64_t procs, threads, syscalls, kills;
  uint64_t probes[64];
  uint32_t nontrivial;
  uint32_t ndec, nfault;
  uint32_t dec_overflow;
  static const uint32_t MAXDEC = 400000, MAXFAULT = 20000;
  Decision dec[MAXDEC];
  Fault flt[MAXFAULT];
  char spec[1 << 20];      // the workload actually run, in replayable form
  uint8_t statebits[1];    // (trailing) linear-counting bitmap; real size STATEBITS/8
};
const uint64_t STATEBITS = 1ull << 24;

// ---------------------------------------------------------------- engine
struct Fiber;
struct Proc;

void init(Result *r, uint8_t *statebits, bool baton, bool trace);
// Runs `root` as the first simulated thread (in a harness-owned process) and then finishes the run.
void run(const SchedCfg &cfg, std::function<void()> root);
[[noreturn]] void finish(int status, const char *cls, const char *msg);
[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool tracing();
extern Result *g_res;
void (*at_finish(void (*)(void)))(void);
// Classes listed here (prefix match) are counted but do not end the run.
void ignore_class(const char *prefix);

// Harness-side scheduling helpers (all deterministic)
void point(int kind, uint64_t tag, uint64_t val = 0);   // scheduling point
void progress();                  // something visible happened
void yield();                     // forced scheduling point
void block_on(const void *key);   // blocks current fiber until wake(key)
void wake(const void *key);
bool fault(int kind, int64_t *arg = nullptr, int64_t argmax = 0);  // ask for a fault here
void count_fault(int kind);
void probe(int i);                // "this rare condition was hit"
uint64_t now_events();
int cur_uid();
Proc *cur_proc();

// processes and threads
Proc *spawn(int pid, const char *name, std::function<int()> main);  // new simulated process
int join_proc(Proc *p);             // waits; returns exit code or -9 if killed
bool proc_killed(Proc *p);
bool proc_done(Proc *p);
void kill_at_event(Proc *p, uint64_t n);    // kill when the process has executed n scheduling points
void kill_at_syscall(Proc *p, uint64_t n);  // kill right before its n-th system call
void kill_now(Proc *p);
uint64_t proc_events(Proc *p);
uint64_t proc_syscalls(Proc *p);
int proc_pid(Proc *p);
Fiber *spawn_thread(const char *name, std::function<void()> fn);   // thread in the current process
void join_thread(Fiber *f);

// resources of the current process
struct Ledger { long fds, maps, sems, threads, allocs; size_t bytes; };
Ledger ledger(Proc *p = nullptr);
std::vector<std::string> named_objects();   // names of existing shm objects and semaphores
std::string ledger_detail(Proc *p = nullptr);
// fails system calls: see OsFault
struct OsFaultPlan { std::string name; int nth; int err; };   // nth: 1-based per process, over calls with that name; negative: that call and all later ones
void set_os_fault_plan(Proc *p, const std::vector<OsFaultPlan> &plan);
std::vector<std::string> os_faults_fired();
int os_calls(Proc *p, const std::string &name);   // system calls with that name so far
// the n-th allocation from now on (and `more` after it) of the process throws what bad_alloc throws; 0: none
void fail_alloc(Proc *p, uint64_t n, uint64_t more, void (*bad_alloc)());
void fail_alloc_here(Proc *p, uint64_t n, void (*bad_alloc)());   // only allocations by the calling thread
bool alloc_failed();
// once the code under test has made n more instrumented accesses: the run ends quietly (cls null) or as a violation
void work_limit(uint64_t n, const char *cls);
uint64_t work_done();
void set_heap_limit(uint64_t bytes);   // a process that has this much allocated runs away

// Every simulated process has globals of its own in the library that contains addr (call before run()).
void private_globals(const void *addr);

// files
void put_file(const std::string &path, const std::string &content);
void remove_file(const std::string &path);
// memory operations made on behalf of SUT code that is not compiled code (CPU simulator, stub parser)
void mem_read(const void *p, size_t n, const char *what);    // check + race detector + scheduling point
void mem_write(void *p, size_t n, const char *what);
void mem_check(const void *p, size_t n, bool write, const char *what);  // check only
void sched_plain(bool on);   // preemption at plain shared-memory accesses on/off

// start of the run of adjacent mappings of the current process that contains p (null: none)
const void *mapping_base(const void *p);
// name of what is done outside the simulation (null: nothing): a crash there is a violation, not a simulator error
void outside(const char *what);
void set_scan_words(uint64_t n);   // size of the largest buffer a thread may scan without visible progress
bool active();   // running inside a simulated thread
}  // namespace sim
