// Harness "py": the real Python package (context.py, listener.py, corelib.py over PyCentaurus.cpp) with
// its processes, queues and clock simulated.  The scenario itself is in pysim.py.
#include "common.h"
#include "gram.h"
#include "job.h"
#include "damage.h"
#include "../sim/sim_int.h"
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cstdlib>
#include <cstring>
#include <memory>

using namespace sim;
extern "C" {
void *PyEval_SaveThread(void);
void PyOS_AfterFork_Child(void);
typedef void (*py_cb)(long);
}
namespace sim { void sleep_switch(); }

const char *harness_name = "py";
bool harness_baton = true;
static py_cb g_exec_cb, g_root_cb;
static const Spec *g_spec;
static std::vector<std::unique_ptr<JobCtx>> g_jobs;
static std::vector<Proc *> g_procs;
static std::map<long, VC> g_vcs;
static int64_t g_bw = 1, g_master_pid = 500;
static Ledger g_base;
static Expect g_bad;
static std::string g_buf;

void harness_load(const std::string &, const std::string &) {}

void harness_gen(const std::string &prop, uint64_t seed, uint64_t index, bool thorough, Spec &s) {
  Rng r(seed);
  s.prop = prop; s.harness = "py";
  s.p["preset"] = r.chance(0.3) ? 1 + (int64_t)r.below(2) : 0;
  s.p["gseed"] = (int64_t)(r.next() >> 1);
  s.p["gsize"] = r.chance(0.8) ? r.range(1, 6) : r.range(6, 14);
  s.p["bank_words"] = r.chance(0.5) ? r.range(1, 6) : r.chance(0.7) ? r.logrange(1, 64) : r.logrange(16, 2000);
  s.p["pid"] = r.chance(0.5) ? 500 : r.range(2, 4000000);
  s.p["optimize"] = r.chance(0.2);
  s.p["newctx"] = 0;
  int n = prop == "C13" ? (int)r.range(1, 4) : r.chance(0.7) ? 1 : 2;
  int64_t workers = r.chance(0.85) ? r.range(1, 4) : r.range(4, 7);
  for (int i = 0; i < n; i++) {
    s.jobs.emplace_back(); Job &j = s.jobs.back();
    j.p["dseed"] = (int64_t)(r.next() >> 1);
    j.p["dsize"] = r.chance(thorough ? 0.1 : 0.04) ? r.logrange(60, thorough ? 800 : 250) : r.logrange(1, 60);
    j.p["aseed"] = (int64_t)(r.next() >> 1);
    j.p["anull"] = r.chance(0.3) ? 0 : (int64_t)r.range(1, 90);
    j.p["adrop"] = 0;
    j.p["mut"] = M_NONE; j.p["mseed"] = (int64_t)(r.next() >> 1);
    j.p["pad"] = 0; j.p["edge"] = 0; j.p["tail"] = r.chance(0.1) ? r.logrange(1, 30) : 0;
    j.p["workers"] = workers;
    j.p["same"] = i && r.chance(0.2);                         // the same file again
    j.p["rewrite"] = i && !j.p["same"] && r.chance(0.25);     // other content under the same name
    j.p["vmode"] = (int64_t)r.below(5);                       // kinds of values the handlers return
    // the workers are stopped and started again before this parse
    j.p["restart"] = i && prop == "C13" && r.chance(0.3) ? (r.chance(0.5) ? workers : (workers = r.range(1, 4))) : 0;
    if (j.p["restart"]) workers = j.p["restart"];
    j.p["workers"] = workers;
    j.p["pause"] = r.chance(0.2) ? r.logrange(1, 3000) : 0;    // the master does something else before this parse
    if (r.chance(prop == "C13" ? 0.15 : 0.0)) { double u = r.unit(); j.p["mut"] = u < 0.2 ? M_NEAR : u < 0.5 ? M_TRUNC : u < 0.65 ? M_BYTE : u < 0.75 ? M_INSERT : u < 0.85 ? M_DELETE : u < 0.95 ? M_RANDOM : M_EMPTY; }
    j.p["raise"] = prop == "C13" && r.chance(0.12) ? (int64_t)r.logrange(1, 1000) : 0;   // a handler fails
    j.p["sysfail"] = prop == "C13" && r.chance(0.08) ? (int64_t)(1 + r.below(7) + 7 * r.below(4) + 28 * r.below(4) + (r.chance(0.35) ? 112 : 0)) : 0;   // which call fails in the master, how
    j.p["missing"] = prop == "C13" && r.chance(0.05);          // the file does not exist
  }
  s.p["defaults"] = r.chance(0.4) ? (int64_t)r.range(1, 80) : 0;   // percent of rules handled by defaultact()
  if (prop == "C21") {          // first a Context from damaged files
    static const int kinds[] = {D_CUT, D_CUT, D_CUT, D_MISSING, D_NOINC, D_CYCLE, D_ZERO, D_BYTE, D_SYNTAX, D_SYNTAX};
    s.p["damage"] = r.chance(0.01) ? D_MANY : kinds[r.below(10)];
    s.p["damseed"] = (int64_t)(r.next() >> 1);
    s.jobs.resize(1); s.jobs[0].p["dsize"] = std::min<int64_t>(s.jobs[0].p["dsize"], 20);
  }
  s.p["nohandler"] = prop == "C13" && r.chance(0.04) ? (int64_t)r.range(1, 1000) : 0;   // first a listener without one of the handlers
  s.p["stop_early"] = prop == "C13" && r.chance(0.05);         // started and stopped without a parse
  gen_sched(r, s.sched, prop == "C13" ? 1.5 : 1.0);
  if (r.chance(0.4)) s.sched.rate[F_QDELAY] = r.chance(0.5) ? 0.05 : 0.4;
  (void)index;
}

static const struct { const char *name; int calls, errs[4]; } SYS[] = {
    {"open", 1, {13, 24, 23, 12}}, {"fstat", 1, {5, 12, 75, 5}}, {"mmap", 4, {12, 13, 11, 19}},
    {"shm_open", 1, {13, 24, 23, 2}}, {"ftruncate", 1, {28, 5, 22, 28}}, {"sem_open", 1, {13, 24, 12, 28}}, {"pthread_create", 1, {11, 12, 1, 11}}};
static size_t g_fired0;
extern "C" int sim_main(int argc, char **argv);
// python3 is not position-independent: without address randomisation its heap lies below 2 GB and a handle cut to 32 bits
// (a ctypes function without its restype or argtypes) still works.  Stop the heap's growth and use up what it has free, so
// that malloc continues with mapped memory, as high up as in a randomised process.
static void high_heap() {
  uint64_t b = ((uint64_t)sbrk(0) + 4095) & ~(uint64_t)4095;
  if (mmap((void *)b, 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) return;
  for (size_t n = 65536; n >= 16; n -= n > 4096 ? 4096 : 16)
    for (int k = 0; k < 100000 && (uint64_t)malloc(n) < ((uint64_t)1 << 32); k++) {}
}
extern "C" {
__attribute__((visibility("default"))) int py_main(int argc, char **argv, py_cb exec_cb, py_cb root_cb) { g_exec_cb = exec_cb; g_root_cb = root_cb; high_heap(); return sim_main(argc, argv); }

// ---- processes, threads, scheduling
__attribute__((visibility("default"))) void py_globals(void *a) { private_globals(a); }
__attribute__((visibility("default"))) long py_spawn(const char *name, py_cb cb, long arg, py_cb epilogue) {
  long idx = (long)g_procs.size();
  Proc *p = spawn((int)(g_master_pid + idx), name, [cb, arg, epilogue]() -> int { cb(arg); if (epilogue) epilogue(arg); return 0; });
  g_procs.push_back(p);
  return idx;
}
__attribute__((visibility("default"))) long py_join(long i) { return join_proc(g_procs[(size_t)i]); }
__attribute__((visibility("default"))) long py_done(long i) { point(20, (uint64_t)i); return proc_done(g_procs[(size_t)i]); }
__attribute__((visibility("default"))) long py_killed(long i) { return proc_killed(g_procs[(size_t)i]); }
__attribute__((visibility("default"))) void py_kill(long i) { kill_now(g_procs[(size_t)i]); }
__attribute__((visibility("default"))) long py_getpid() { return g_cur ? cur_proc()->pid : g_master_pid; }
__attribute__((visibility("default"))) long py_procidx() { return g_cur ? cur_proc()->idx : -1; }
__attribute__((visibility("default"))) long py_uid() { return cur_uid(); }
__attribute__((visibility("default"))) void py_point(long tag) { point(21, (uint64_t)tag); }
__attribute__((visibility("default"))) void py_yield() { yield(); }
__attribute__((visibility("default"))) void py_block(long key) { block_on((const void *)key); }
__attribute__((visibility("default"))) void py_wake(long key) { wake((const void *)key); }
__attribute__((visibility("default"))) void py_progress() { progress(); }
__attribute__((visibility("default"))) void py_thread(const char *name, py_cb cb, long arg) { Fiber *f = spawn_thread(name, [cb, arg]() { cb(arg); }); f->detached = true; }
__attribute__((visibility("default"))) void py_sysfail(long code) {      // 0: no more
  In in;
  if (!code) { set_os_fault_plan(cur_proc(), {}); return; }
  code--;
  auto &c = SYS[code % 7];
  g_fired0 = os_faults_fired().size();
  int nth = os_calls(cur_proc(), c.name) + 1 + (int)(code / 7 % 4) % c.calls;
  set_os_fault_plan(cur_proc(), {{c.name, code < 112 ? nth : -nth, c.errs[code / 28 % 4]}});
}
__attribute__((visibility("default"))) long py_sysfired() { return (long)(os_faults_fired().size() - g_fired0); }
__attribute__((visibility("default"))) long py_fault(long kind, long max) { int64_t a = 0; return fault((int)kind, &a, max) ? a + 1 : 0; }
__attribute__((visibility("default"))) void py_sleep(long ns) {
  if (!g_cur) return;
  In in;
  point_impl(E_SYS, 66, (uint64_t)ns);
  Fiber *f = g_cur;
  f->st = SLEEP; f->wake_at = S.sim_ns + S.events * 20 + (uint64_t)ns;
  f->evno++; S.events++;
  sleep_switch();
}
__attribute__((visibility("default"))) double py_time() { return (double)(S.sim_ns + S.events * 20) * 1e-9; }
// a message through a queue orders what was done before sending before what is done after receiving
__attribute__((visibility("default"))) void py_release(long id) { In in; if (g_cur) relock_release(g_vcs[id]); }
__attribute__((visibility("default"))) void py_acquire(long id) { In in; auto it = g_vcs.find(id); if (it != g_vcs.end() && g_cur) { vc_acquire(it->second); g_vcs.erase(it); } }

// ---- reporting
__attribute__((visibility("default"))) void py_report(const char *cls, const char *msg) { report(cls, "%s", msg); }
__attribute__((visibility("default"))) void py_harness_error(const char *msg) { harness_error("%s", msg); }
__attribute__((visibility("default"))) void py_trace(const char *msg) { trace("%s", msg); }
__attribute__((visibility("default"))) long py_tracing() { return tracing(); }
__attribute__((visibility("default"))) void py_probe(long i) { probe((int)i); }
__attribute__((visibility("default"))) void py_nontrivial() { g_res->nontrivial = 1; }
__attribute__((visibility("default"))) const char *py_named() { auto v = named_objects(); g_buf.clear(); for (auto &n : v) g_buf += n + "\n"; return g_buf.c_str(); }
__attribute__((visibility("default"))) void py_base() { g_base = ledger(); }
__attribute__((visibility("default"))) const char *py_leaks() {
  Ledger l = ledger(); g_buf.clear();
  if (l.maps != g_base.maps || l.fds != g_base.fds || l.sems != g_base.sems || l.threads != g_base.threads) g_buf = ledger_detail();
  return g_buf.c_str();
}
// ---- the specification
__attribute__((visibility("default"))) long py_param(const char *k, long d) { return g_spec->get(k, d); }
__attribute__((visibility("default"))) long py_jobs() { return (long)g_spec->jobs.size(); }
__attribute__((visibility("default"))) long py_job(long i, const char *k, long d) { return g_spec->jobs[(size_t)i].get(k, d); }
__attribute__((visibility("default"))) long py_bank_words() { return g_bw; }
__attribute__((visibility("default"))) long py_rules() { return (long)g_gr.rules.size(); }
__attribute__((visibility("default"))) const char *py_rule(long i) { return g_gr.rules[(size_t)i].name.c_str(); }
__attribute__((visibility("default"))) long py_rule_id(long i) { return g_gr.mid[(size_t)i]; }
__attribute__((visibility("default"))) long py_unused() { return g_gr.unused; }
__attribute__((visibility("default"))) long py_input(long i, const char **p) { *p = g_jobs[(size_t)i]->input.data(); return (long)g_jobs[(size_t)i]->input.size(); }
__attribute__((visibility("default"))) long py_accept(long i) { return g_jobs[(size_t)i]->ref.accept; }
__attribute__((visibility("default"))) long py_words(long i) { return (long)g_jobs[(size_t)i]->ref.stream.size(); }
__attribute__((visibility("default"))) long py_nodes(long i) { return (long)g_jobs[(size_t)i]->ref.nodes.size(); }
__attribute__((visibility("default"))) void py_node(long i, long k, long *o) {
  auto &J = *g_jobs[(size_t)i]; auto &n = J.ref.nodes[(size_t)k];
  o[0] = n.id; o[1] = n.start; o[2] = n.end; o[3] = n.parent; o[4] = J.st[(size_t)k].val == 0;
}
__attribute__((visibility("default"))) void py_put_file(const char *path, long i) { put_file(path, g_jobs[(size_t)i]->input); }
__attribute__((visibility("default"))) void py_outside(const char *w) { static std::string keep; if (w) { keep = w; outside(keep.c_str()); } else outside(nullptr); }
__attribute__((visibility("default"))) void py_setup_failed(const char *msg) {
  harness_cleanup(getpid());
  if (relevant(g_spec->prop, "setup:grammar")) finish(2, "setup:grammar", msg);
  finish(1, "", "");
}
__attribute__((visibility("default"))) void py_load_failed(const char *cls, const char *msg) { harness_cleanup(getpid()); if (relevant(g_spec->prop, cls)) finish(2, cls, msg); finish(1, "", ""); }
__attribute__((visibility("default"))) long py_bad() { return g_spec->prop != "C21" ? 0 : g_bad.must_fail ? 1 : g_bad.must_load ? 2 : 3; }
__attribute__((visibility("default"))) const char *py_bad_how() { return damage_names[g_spec->get("damage") % D_NKINDS]; }
__attribute__((visibility("default"))) long py_bad_rule(long i) { return g_bad.rules[(size_t)i]; }
__attribute__((visibility("default"))) const char *py_grammar() { static std::string p; p = gram_dir(getpid()) + "/g.cgr"; return p.c_str(); }
}

void harness_exec(const Spec &s) {
  g_spec = &s;
  PyOS_AfterFork_Child();
  for (const char *c : {"race:", "memory:heap-overflow", "memory:use-after-free"}) if (!relevant(s.prop, c)) ignore_class(c);
  g_bw = std::max<int64_t>(1, s.get("bank_words", 4));
  g_master_pid = std::max<int64_t>(2, s.get("pid", 500));
  Rng r((uint64_t)s.get("gseed"));
  if (s.get("preset")) gram::preset((int)s.get("preset") - 1, g_gr);
  else if (!gram::generate(r, std::max<int64_t>(1, std::min<int64_t>(s.get("gsize"), 40)), g_gr)) { finish(1, "", ""); }
  Rng pr((uint64_t)s.get("gseed") ^ 0x77);
  g_text = g_gr.print(pr, &g_inc);
  trace("grammar:\n%s%s%s", g_text.c_str(), g_inc.empty() ? "" : "\n---- inc.cgr\n", g_inc.c_str());
  int64_t maxm = 1;
  for (size_t i = 0; i < s.jobs.size(); i++) {
    bool same = i && s.jobs[i].get("same");
    Job *j = new Job(s.jobs[i]);
    if (same) for (auto k : {"dseed", "dsize", "mut", "mseed", "tail", "pad", "edge"}) j->p[k] = g_jobs.back()->job->get(k);
    g_jobs.emplace_back(new JobCtx);
    init_job(*g_jobs.back(), *j, (int)i);
    maxm = std::max(maxm, (int64_t)g_jobs.back()->ref.stream.size());
  }
  if (maxm / g_bw > 200) g_bw = maxm / 200;
  std::string d = gram_dir(getpid());
  mkdir(d.c_str(), 0700);
  auto put = [&](const char *n, const std::string &t) { FILE *f = fopen(n, "w"); if (!f || fwrite(t.data(), 1, t.size(), f) != t.size()) finish(3, "harness-error", "cannot write grammar"); fclose(f); };
  mkdir((d + "/sub").c_str(), 0700);
  if (s.prop == "C21") {
    std::vector<gram::Grammar::File> fs;
    mkdir((d + "/bad").c_str(), 0700); mkdir((d + "/bad/sub").c_str(), 0700);
    g_bad = damage((int)s.get("damage"), (uint64_t)s.get("damseed"), d + "/bad/", fs);
    for (auto &f : fs) put(f.name.c_str(), f.text);
  }
  for (auto &f : g_gr.files(d + "/", g_text, g_inc)) put(f.name.c_str(), f.text);
  g_exec_cb(0);                 // creates the Context (outside the simulation)
  harness_cleanup(getpid());
  set_scan_words((uint64_t)g_bw);
  PyEval_SaveThread();
  sim::run(s.sched, []() { g_root_cb(0); });
}
