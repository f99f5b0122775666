// Harness "e2e": grammar file -> generated parser (on a simulated CPU) -> stages -> actions, compared
// with an independent sequential evaluation of the same grammar.
#include "common.h"
#include "gram.h"
#include "glue_e2e.h"
#include "job.h"
#include "damage.h"
#include <dlfcn.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <memory>
#include <sstream>
#include <unordered_map>

using namespace sim;
extern "C" void *(*sim_eh_globals[2])();
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept; }

const char *harness_name = "e2e";
bool harness_baton = false;
static const GlueApi *G;
static const E2eApi *E;
void harness_load(const std::string &d, const std::string &prop) {
  // for C21 the library with everything instrumented
  void *h = dlopen((d + (prop == "C21" ? "/libsut_load.so" : "/libsut_e2e.so")).c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(97); }
  G = ((const GlueApi *(*)())dlsym(h, "glue_api"))();
  E = ((const E2eApi *(*)())dlsym(h, "glue_e2e_api"))();
  private_globals(dlsym(h, "glue_api"));
}

enum { SC_CONTEXT = 0, SC_STAGE1, SC_STAGES, SC_FAULT, SC_LOAD };

// the interface a grammar is loaded through (C21)
enum { API_CONTEXT = 0, API_GRAMMAR, API_OPTIMIZED, API_CTOR, API_DRY, API_N };

static const struct { const char *name; int errs[6]; } SYS[] = {
    {"open", {2, 13, 24, 23, 12, 0}}, {"fstat", {5, 12, 75, 0}}, {"mmap", {12, 13, 11, 19, 0}},
    {"shm_open", {13, 24, 23, 2, 0}}, {"ftruncate", {28, 5, 22, 0}}, {"sem_open", {13, 24, 12, 28, 0}},
    {"pthread_create", {11, 12, 1, 0}}};

static void gen_load(Rng &r, bool thorough, Spec &s) {
  s.p["preset"] = r.chance(0.1) ? 1 + (int64_t)r.below(2) : 0;
  s.p["gseed"] = (int64_t)(r.next() >> 1);
  s.p["gsize"] = r.chance(0.9) ? r.range(1, 6) : r.range(6, 16);
  s.p["bank_words"] = r.range(1, 40);
  s.p["scenario"] = SC_LOAD;
  s.p["damage"] = r.chance(0.35) ? D_CUT : r.chance(0.006) ? D_MANY : (int64_t)r.below(D_MANY);
  s.p["damseed"] = (int64_t)(r.next() >> 1);
  s.p["apiseed"] = (int64_t)(r.next() >> 1);
  s.p["threads"] = r.chance(0.8) ? 1 : r.range(2, 3);
  if (s.p["damage"] == D_MANY) s.p["threads"] = 1;
  if (s.p["threads"] > 1) { s.p["preset"] = 0; s.p["gsize"] = r.range(1, 3); }
  for (int i = 0, n = (int)r.range(1, thorough ? 3 : 2); i < n; i++) {
    s.jobs.emplace_back(); Job &j = s.jobs.back();
    j.p["dseed"] = (int64_t)(r.next() >> 1);
    j.p["dsize"] = r.logrange(1, 30);
    j.p["workers"] = r.range(1, 2);
    j.p["mut"] = r.chance(0.7) ? M_NONE : M_NEAR; j.p["mseed"] = (int64_t)(r.next() >> 1);
    j.p["aseed"] = (int64_t)(r.next() >> 1);
  }
  Job &j = s.jobs[0];
  char b[100];
  static const int oerr[] = {24, 13, 12, 5, 40, 23}, rerr[] = {5, 21, 12, 116};
  if (s.p["damage"] == D_READ) { snprintf(b, sizeof b, "F read %d %d", (int)r.range(1, r.chance(0.5) ? 3 : 12) * (r.chance(0.35) ? -1 : 1), rerr[r.below(4)]); j.w.push_back(b); }
  if (s.p["damage"] == D_OPEN) { snprintf(b, sizeof b, "F open %d %d", (int)r.range(1, 3) * (r.chance(0.35) ? -1 : 1), oerr[r.below(6)]); j.w.push_back(b); }
  if (s.p["damage"] == D_NOMEM) { snprintf(b, sizeof b, "N %d %d", (int)r.logrange(1, 20000), r.chance(0.7) ? 0 : (int)r.logrange(1, 100)); j.w.push_back(b); }
  gen_sched(r, s.sched, 1.0);
  s.sched.rate[F_SHORT] = r.chance(0.5) ? 0 : r.chance(0.5) ? 0.1 : 0.7;
  if (r.chance(0.5)) s.sched.rate[F_EINTR] = 0;
}
void harness_gen(const std::string &prop, uint64_t seed, uint64_t index, bool thorough, Spec &s) {
  Rng r(seed);
  if (prop == "C21") { s.prop = prop; s.harness = "e2e"; gen_load(r, thorough, s); return; }
  s.prop = prop; s.harness = "e2e";
  s.p["preset"] = r.chance(0.2) ? 1 + (int64_t)r.below(2) : 0;
  s.p["gseed"] = (int64_t)(r.next() >> 1);
  s.p["gsize"] = r.chance(0.8) ? r.range(1, 8) : r.range(8, 24);
  s.p["bank_words"] = r.chance(0.5) ? r.range(1, 6) : r.chance(0.7) ? r.logrange(1, 64) : r.logrange(16, 2000);
  int sc = r.chance(0.7) ? SC_CONTEXT : r.chance(0.4) ? SC_STAGE1 : SC_STAGES;
  if (prop == "C06" || prop == "C02") sc = r.chance(0.8) ? SC_CONTEXT : SC_STAGES;
  if (prop == "C10") sc = r.chance(0.7) ? SC_STAGE1 : SC_STAGES;
  if (prop == "C15") sc = SC_STAGES;
  if (prop == "C08") sc = SC_FAULT;
  bool many = false;                                                   // many inputs through the parser alone
  if (prop == "C03" || prop == "C11" || prop == "C14") { if (sc != SC_STAGE1 && r.chance(0.3)) sc = SC_STAGE1; many = sc == SC_STAGE1 && r.chance(0.85); }
  s.p["scenario"] = sc;
  int n = prop == "C06" ? (int)r.range(2, 5) : sc == SC_FAULT ? 2 : sc == SC_CONTEXT && r.chance(0.3) ? (int)r.range(2, 3) : many ? (int)r.range(10, thorough ? 80 : 40) : 1;
  bool dry = sc == SC_STAGE1 && r.chance(0.25);                        // the parser that leaves no trace
  for (int i = 0; i < n; i++) {
    s.jobs.emplace_back(); Job &j = s.jobs.back();
    j.p["dseed"] = (int64_t)(r.next() >> 1);
    j.p["dsize"] = r.chance(thorough ? 0.1 : 0.04) ? r.logrange(100, thorough ? 2000 : 500) : r.logrange(1, many ? 30 : 80);
    if (!many && i == 0 && r.chance(thorough ? 0.02 : 0.006)) { j.p["dsize"] = r.logrange(1000, thorough ? 20000 : 5000); s.p["bank_words"] = std::max<int64_t>(s.p["bank_words"], j.p["dsize"] / 50); }
    j.p["workers"] = r.chance(0.85) ? r.range(1, 4) : r.range(4, 9);
    j.p["banks"] = sc == SC_CONTEXT || sc == SC_FAULT || r.chance(0.3) ? 0 : r.range(1, 8);   // 0: twice the workers
    j.p["aseed"] = (int64_t)(r.next() >> 1);
    j.p["anull"] = r.chance(0.3) ? 0 : (int64_t)r.range(1, 90);       // percent of actions that return null
    j.p["adrop"] = r.chance(0.4) ? 0 : (int64_t)r.range(1, 80);       // percent of rules without an action
    j.p["mut"] = M_NONE; j.p["mseed"] = (int64_t)(r.next() >> 1);
    j.p["pad"] = 0; j.p["edge"] = 0;
    double pm = prop == "C11" ? 1.0 : prop == "C14" ? 0.4 : prop == "C03" ? 0.1 : prop == "C06" ? 0.25 : prop == "C10" ? 0.2 : prop == "C04" || prop == "C05" ? 0.2 : 0.0;
    if (many && prop != "C11") pm = 0.6;
    if (r.chance(pm)) { double u = r.unit(); j.p["mut"] = many ? (u < 0.6 ? M_NEAR : u < 0.7 ? M_TRUNC : u < 0.8 ? M_BYTE : u < 0.87 ? M_INSERT : u < 0.94 ? M_DELETE : M_SWAP) : u < 0.2 ? M_NEAR : u < 0.4 ? M_TRUNC : u < 0.55 ? M_BYTE : u < 0.65 ? M_INSERT : u < 0.75 ? M_DELETE : u < 0.85 ? M_DUP : u < 0.93 ? M_SWAP : u < 0.97 ? M_RANDOM : M_EMPTY; }
    if (r.chance(prop == "C14" ? 0.9 : 0.1)) { j.p["pad"] = 4096; j.p["edge"] = r.chance(0.4) ? 0 : r.chance(0.7) ? r.range(-17, 17) : r.range(-200, 200); }
    if (r.chance(0.006)) { j.p["pad"] = r.chance(0.8) ? 65536 : 1 << 20; j.p["edge"] = r.range(-100, 100); }   // offsets beyond 16 and 20 bits
    if (r.chance(0.1)) j.p["tail"] = r.logrange(1, 40); else j.p["tail"] = 0;       // bytes after the accepted part
    j.p["order"] = r.chance(0.5) ? 0 : (int64_t)r.below(1000);
    j.p["dorder"] = r.chance(0.5) ? 0 : (int64_t)r.below(1000);
    j.p["dry"] = dry;
    j.p["counter"] = sc == SC_STAGES && (prop == "C15" || r.chance(0.4));
  }
  if (sc == SC_FAULT) {
    Job &j = s.jobs[0];
    int nf = r.chance(0.8) ? 1 : (int)r.range(2, 3);
    for (int i = 0; i < nf; i++) {
      auto &f = SYS[r.below(7)];
      int ne = 0; while (f.errs[ne]) ne++;
      int64_t stages = 2 + j.get("workers"), per = !strcmp(f.name, "mmap") ? 4 : 1;
      char b[100]; snprintf(b, sizeof b, "F %s %" PRId64 " %d", f.name, r.range(1, per * stages) * (r.chance(0.35) ? -1 : 1), f.errs[r.below((uint64_t)ne)]);
      j.w.push_back(b);
    }
    if (r.chance(0.1)) j.w.push_back("M");
    else if (r.chance(0.15)) { char b[60]; snprintf(b, sizeof b, "N %d", (int)r.range(1, 3 + j.get("workers"))); j.w.assign(1, b); }
  }
  gen_sched(r, s.sched, prop == "C05" ? 1.5 : 1.0);
  (void)index;
}

// ------------------------------------------------------------ what is run
static void *g_ctx, *g_gram, *g_parser;
static std::vector<int> g_mid;          // rule -> machine id

static void slow_callback() { int64_t k; if (fault(F_SLOWCB, &k, 40)) for (int64_t i = 0; i <= k; i++) yield(); }

static bool subtree_done(JobCtx &J, int i) {
  for (int k : J.ref.nodes[(size_t)i].kids) {
    if (J.attached[(size_t)(J.ref.nodes[(size_t)k].id - 1)]) { if (!J.st[(size_t)k].done) return false; }
    else if (!subtree_done(J, k)) return false;
  }
  return true;
}
// one reported construct; returns the action's result
static uint64_t reduced(JobCtx &J, int rule, int64_t s, int64_t e, const uint64_t *v, int nv, int count) {
  progress();
  J.calls++;
  trace("action %s [%" PRId64 ",%" PRId64 ") count=%d", rule_name(rule), s, e, count);
  auto it = J.by_key.find(key(rule + 1, s, e));
  if (it == J.by_key.end()) { report("reduction:phantom", "construct %s [%" PRId64 ",%" PRId64 ") reported but not recognised in the input", rule_name(rule), s, e); return 1; }
  size_t i = (size_t)it->second;
  auto &n = J.ref.nodes[i]; auto &st = J.st[i];
  if (st.called) { report("reduction:duplicate", "construct %s [%" PRId64 ",%" PRId64 ") reported twice", rule_name(rule), s, e); return st.val; }
  st.called = true;
  if (!J.attached[(size_t)rule]) report("reduction:phantom", "action of %s called although none is attached", rule_name(rule));
  if (!subtree_done(J, (int)i)) report("reduction:order", "construct %s [%" PRId64 ",%" PRId64 ") reported before a construct nested in it", rule_name(rule), s, e);
  std::vector<uint64_t> exp;
  for (int k : n.kids) if (J.attached[(size_t)(J.ref.nodes[(size_t)k].id - 1)] && J.st[(size_t)k].val) exp.push_back(J.st[(size_t)k].val);
  if (count != (int)exp.size()) report("values:count", "action of %s [%" PRId64 ",%" PRId64 ") got %d values, expected %zu", rule_name(rule), s, e, count, exp.size());
  else for (int k = 0; k < nv && k < count; k++) if (v[k] != exp[(size_t)k]) { report("values:wrong", "action of %s [%" PRId64 ",%" PRId64 ") got value %d = %" PRIx64 ", expected %" PRIx64, rule_name(rule), s, e, k + 1, v[k], exp[(size_t)k]); break; }
  slow_callback();
  st.done = true;
  return st.val;
}
// Context: called through SymbolContext
static void *on_action(void *, E2eSymbol *y) {
  JobCtx &J = *g_job;
  point(7, (uint64_t)y->machine, (uint64_t)y->len);
  const char *base = (const char *)mapping_base(y->p_start);
  const char *base2 = (const char *)mapping_base(y->p_end);
  if (!base || base != base2) { report("reduction:text", "action of %s got text outside the input", rule_name(y->machine)); return nullptr; }
  int64_t s = y->p_start - base, e = y->p_end - base;
  if (s < 0 || e < s || e > (int64_t)J.input.size()) { report("reduction:text", "action of %s got text [%" PRId64 ",%" PRId64 ") of an input of %zu bytes", rule_name(y->machine), s, e, J.input.size()); return nullptr; }
  if (memcmp(base, J.input.data(), J.input.size())) report("reduction:text", "action of %s got text that is not the input", rule_name(y->machine));
  if (y->len != (int)(e - s)) report("reduction:text", "length %d of a text of %" PRId64 " bytes", y->len, e - s);
  if ((int64_t)y->readlen != e - s || J.input.compare((size_t)s, y->textlen, y->text, y->textlen)) report("reduction:text", "read() returns something else than the matched text");
  return (void *)reduced(J, y->machine, s, e, y->values, y->nvalues, y->count);
}
// runners: the raw listener interface
static long on_reduce(const void *symbol, uint64_t *values, int num, void *ctx) {
  JobCtx &J = *(JobCtx *)ctx;
  mem_check(symbol, 24, false, "symbol");
  long id, st, en; G->symbol(symbol, &id, &st, &en);
  point(7, (uint64_t)id, (uint64_t)st);
  int rule = -1;
  for (size_t i = 0; i < g_mid.size(); i++) if (g_mid[i] == (int)id) rule = (int)i;
  if (rule < 0) { report("reduction:phantom", "reduction with unknown id %ld", id); return 0; }
  if (J.counter) {
    int64_t c = G->counter_get(J.counter) - J.counter_base;
    if (c < 0 || (uint64_t)c > J.calls + 1) report("counter:high", "counter at %" PRId64 " while only %" PRIu64 " listener calls were made", c, J.calls + 1);
  }
  if (num > 0) mem_check(values, (size_t)num * 8, false, "values");
  return (long)reduced(J, rule, st, en, values, num, num);
}
static void check_end(JobCtx &J) {
  if (!J.ref.accept) {
    if (J.ref.nodes.size() > 1 && J.calls) probe(41);
    probe(40);
    J.completed = true;
    return;
  }
  for (size_t i = 0; i < J.ref.nodes.size(); i++) {
    auto &n = J.ref.nodes[i];
    if (J.attached[(size_t)(n.id - 1)] && !J.st[i].called) { report("reduction:missing", "construct %s [%" PRId64 ",%" PRId64 ") never reported", rule_name(n.id - 1), n.start, n.end); break; }
  }
  J.completed = true;
}
static void check_ledger(const Ledger &b, const char *when) {
  Ledger l = ledger();
  if (l.fds != b.fds || l.maps != b.maps || l.sems != b.sems || l.threads != b.threads || l.allocs != b.allocs)
    report(l.fds != b.fds ? "leak:fd" : l.maps != b.maps ? "leak:mapping" : l.sems != b.sems ? "leak:semaphore" : l.threads != b.threads ? "leak:thread" : "leak:memory", "%s the process still holds: %s", when, ledger_detail().c_str());
  auto v = named_objects();
  if (!v.empty()) report("leak:name", "%s a named object still exists: %s", when, v[0].c_str());
}
static std::string file_of(const JobCtx &J) { return "/sim/input" + std::to_string(J.index); }
static void attach_all(JobCtx &J) {
  char err[300];
  for (size_t i = 0; i < g_gr.rules.size(); i++) {
    std::wstring w(g_gr.rules[i].name.begin(), g_gr.rules[i].name.end());
    // an attachment made for an earlier parse is replaced, not removed: slots of unattached rules stay null
    if (J.attached[i] && !E->ctx_attach(g_ctx, w.c_str(), (int)i, err, sizeof err)) report("setup:attach", "attaching an action to %s failed: %s", g_gr.rules[i].name.c_str(), err);
  }
}
static void nontrivial(JobCtx &J) {
  int64_t bw = std::max<int64_t>(1, E ? 1 : 1); (void)bw;
  if (J.calls > 1) g_res->nontrivial = 1;
  if (J.input.size() % 4096 == 0 && !J.input.empty()) probe(43);
  if (J.input.empty()) probe(44);
}
static const void *result_ptr(JobCtx &J, void *s1) {
  const char *in = (const char *)G->input(s1);
  return J.ref.accept ? in + J.ref.end : nullptr;
}
static void check_capture(JobCtx &J, void *s1, int64_t bw, bool dryparser) {
  size_t n = G->nchunks(s1);
  std::vector<uint64_t> got;
  for (size_t i = 0; i < n; i++) {
    size_t w; const uint64_t *c = G->chunk(s1, i, &w);
    if ((int64_t)w != bw) { report("capture:size", "chunk %zu has %zu entries, buffers have %" PRId64, i, w, bw); return; }
    mem_check(c, w * 8, false, "chunk");
    got.insert(got.end(), c, c + w);
  }
  std::vector<uint64_t> exp = dryparser ? std::vector<uint64_t>() : J.ref.stream;
  if (!dryparser) for (auto &m : exp) m = (m & ~(0x7FFFull << 48)) | ((uint64_t)g_mid[(size_t)((m >> 48 & 0x7FFF) - 1)] << 48);
  if (dryparser) { if (n > 0) report("capture:count", "a parser that leaves no trace produced %zu chunks", n); return; }
  if (J.ref.accept) {
    size_t pages = exp.size() / (size_t)bw + 1;
    if (n != pages) { report("capture:count", "%zu chunks captured, the trace of %zu entries needs %zu", n, exp.size(), pages); return; }
  }
  size_t k = 0;
  while (k < exp.size() && k < got.size() && got[k] == exp[k]) k++;
  if (J.ref.accept && k < exp.size() && k < got.size() * (size_t)1 + (exp.size() % (size_t)bw == 0)) {
    if (k < got.size()) report("capture:content", "trace entry %zu is %" PRIx64 ", expected %" PRIx64, k, got[k], exp[k]);
    else report("capture:count", "trace ends after %zu of %zu entries", k, exp.size());
    return;
  }
  // a page requested when the trace ended exactly at a boundary is never used
  for (; k < got.size(); k++) if (got[k]) { report("capture:content", "trace entry %zu is %" PRIx64 " although the parser wrote nothing there", k, got[k]); return; }
}
static std::vector<int> permute(int n, int64_t code) {
  std::vector<int> v((size_t)n);
  for (int i = 0; i < n; i++) v[(size_t)i] = i;
  if (code) { Rng r((uint64_t)code * 77 + 5); for (int i = n - 1; i > 0; i--) std::swap(v[(size_t)i], v[r.below((uint64_t)i + 1)]); }
  return v;
}
static int run_stages(JobCtx &J, int64_t bw, bool only1, void *counter) {
  char err[400];
  std::vector<void *> st;
  bool dry = J.job->get("dry") || J.dry_parser;
  J.counter = counter;
  if (counter) J.counter_base = G->counter_get(counter);
  void *s1 = G->stage1_new(file_of(J).c_str(), g_parser, (size_t)bw * 8, (int)J.banks, only1, 1, err, sizeof err);
  if (!s1) { report("setup:error", "stage 1: %s", err); return 1; }
  st.push_back(s1);
  if (!only1) for (int i = 0; i <= J.workers; i++) {
    bool three = i == J.workers;
    void *o = three ? G->stage3_new(file_of(J).c_str(), (size_t)bw * 8, (int)J.banks, 500, &J, counter, err, sizeof err)
                    : G->stage2_new(file_of(J).c_str(), (size_t)bw * 8, (int)J.banks, 500, &J, counter, err, sizeof err);
    if (!o) { report("setup:error", "stage: %s", err); return 1; }
    G->listen(o, three ? 3 : 2, on_reduce, nullptr);
    st.push_back(o);
  }
  for (int i : permute((int)st.size(), J.job->get("order"))) G->start(st[(size_t)i], err, sizeof err);
  for (auto o : st) G->wait(o, err, sizeof err);
  const void *res = G->result(s1);
  if (res != result_ptr(J, s1)) {
    if (!res) report("result:wrong", "the parser rejected an input the grammar accepts (%s)", clip(J.input).c_str());
    else if (!J.ref.accept) report("result:wrong", "the parser accepted an input the grammar rejects (%s)", clip(J.input).c_str());
    else report("result:wrong", "the parser stopped at offset %" PRId64 ", the root ends at %" PRId64, (int64_t)((const char *)res - (const char *)G->input(s1)), J.ref.end);
  }
  check_capture(J, s1, bw, dry);
  if (only1) { if (J.calls) report("reduction:phantom", "reductions in a dry run"); J.completed = true; }
  else {
    check_end(J);
    if (counter) { int64_t c = G->counter_get(counter) - J.counter_base; if (c != (int64_t)J.calls) report("counter:total", "counter rose by %" PRId64 " for %" PRIu64 " reductions", c, J.calls); }
  }
  for (int i : permute((int)st.size(), J.job->get("dorder"))) G->destroy(st[(size_t)i]);
  return 0;
}

#include "load.h"
static void scenario(const Spec &s) {
  int sc = (int)s.get("scenario");
  if (sc == SC_LOAD) { join_proc(spawn(500, "loader", [&]() { return load_main(s); })); return; }
  int64_t bw = std::max<int64_t>(1, s.get("bank_words", 4));
  std::vector<std::unique_ptr<JobCtx>> js;
  for (size_t i = 0; i < s.jobs.size(); i++) {
    js.emplace_back(new JobCtx); JobCtx &J = *js.back();
    init_job(J, s.jobs[i], (int)i);
    if (sc == SC_STAGES || sc == SC_STAGE1) J.attached.assign(J.attached.size(), true);
    // attachments are never removed from a context: one set for all parses
    else if (i) J.attached = js[0]->attached;
    put_file(file_of(J), J.input);
    trace("input %zu (%zu bytes, %s, %zu constructs): %s", i, J.input.size(), J.ref.accept ? "accepted" : "rejected", J.ref.nodes.size(), clip(J.input).c_str());
    if ((int64_t)J.ref.stream.size() > bw) probe(1);
    if ((int64_t)J.ref.stream.size() > bw * J.banks) probe(0);
    if (J.ref.stream.size() % (size_t)bw == 0) probe(2);
    if (J.workers > 1) probe(3);
  }
  Proc *p = spawn(500, "master", [&]() {
    char err[400];
    if (sc == SC_CONTEXT) {
      attach_all(*js[0]);
      E->set_action(on_action, nullptr);
      Ledger b = ledger();
      for (auto &j : js) {
        JobCtx &J = *j;
        g_job = &J;
        if (!E->ctx_parse(g_ctx, file_of(J).c_str(), (int)J.workers, err, sizeof err)) report("setup:error", "parse failed although nothing went wrong: %s", err);
        check_end(J); nontrivial(J);
        check_ledger(b, "after a completed parse");
      }
    } else if (sc == SC_FAULT) {
      std::vector<OsFaultPlan> plan; bool missing = false; uint64_t nomem = 0;
      for (auto &l : s.jobs[0].w) {
        std::istringstream in(l); std::string k; in >> k;
        if (k == "F") { OsFaultPlan f; in >> f.name >> f.nth >> f.err; plan.push_back(f); }
        if (k == "M") missing = true;
        if (k == "N") in >> nomem;
      }
      attach_all(*js[0]);
      E->set_action(on_action, nullptr);
      Ledger b = ledger();
      g_job = js[0].get();
      set_os_fault_plan(cur_proc(), plan);
      fail_alloc_here(cur_proc(), nomem, E->bad_alloc);
      int ok = E->ctx_parse(g_ctx, missing ? "/sim/nonexistent" : file_of(*js[0]).c_str(), (int)js[0]->workers, err, sizeof err);
      set_os_fault_plan(cur_proc(), {});
      bool fired = !os_faults_fired().empty() || alloc_failed();
      fail_alloc(cur_proc(), 0, 0, nullptr);
      if (!ok) {
        g_res->nontrivial = 1; probe(20);
        if (!missing && !fired) report("setup:error", "parse failed although no fault was injected: %s", err);
        if (js[0]->calls) report("reduction:phantom", "actions called by a parse whose setup failed");
      } else {
        if (missing || fired) report("setup:unreported", "a failing system call was not reported by Context::parse");
        check_end(*js[0]);
      }
      check_ledger(b, "after a failed setup");
      g_job = js[1].get();
      if (!E->ctx_parse(g_ctx, file_of(*js[1]).c_str(), (int)js[1]->workers, err, sizeof err)) report("setup:error", "retry failed although the cause is gone: %s", err);
      check_end(*js[1]);
      check_ledger(b, "after the retry");
    } else {
      void *counter = nullptr;
      for (auto &j : js) if (j->job->get("counter")) { counter = G->counter_new(); break; }
      Ledger b = ledger();
      for (auto &j : js) {
        run_stages(*j, bw, sc == SC_STAGE1, j->job->get("counter") ? counter : nullptr); nontrivial(*j);
        if (sc == SC_STAGE1 && j->ref.stream.size() > 2) g_res->nontrivial = 1;
        check_ledger(b, "after a completed parse");
      }
      if (counter) G->counter_delete(counter);
    }
    return 0;
  });
  join_proc(p);
}

void harness_exec(const Spec &s) {
  sim_eh_globals[0] = G->eh_globals;
  sim_eh_globals[1] = (void *(*)())&__cxxabiv1::__cxa_get_globals;
  for (const char *c : {"race:", "memory:heap-overflow", "memory:use-after-free"}) if (!relevant(s.prop, c)) ignore_class(c);
  int64_t bw = std::max<int64_t>(1, s.get("bank_words", 4));
  // the grammar
  Rng r((uint64_t)s.get("gseed"));
  if (s.get("preset")) gram::preset((int)s.get("preset") - 1, g_gr);
  else if (!gram::generate(r, std::max<int64_t>(1, std::min<int64_t>(s.get("gsize"), 40)), g_gr)) { sim::finish(1, "", ""); }
  Rng pr((uint64_t)s.get("gseed") ^ 0x77);
  g_text = g_gr.print(pr, &g_inc);
  if (s.get("scenario") == SC_LOAD && g_inc.empty() && g_gr.ends[0].empty()) sim::finish(1, "", "");
  trace("grammar:\n%s%s%s", g_text.c_str(), g_inc.empty() ? "" : "\n---- inc.cgr\n", g_inc.c_str());
  // too many banks make a run endless without showing anything new
  int64_t maxm = 1;
  for (auto &j : s.jobs) { JobCtx J; init_job(J, j, 0); maxm = std::max(maxm, (int64_t)J.ref.stream.size()); }
  if (maxm / bw > 400) bw = maxm / 400;
  Spec q = s; q.p["bank_words"] = bw;
  if (s.get("scenario") == SC_LOAD) {
    E->set_bank_size(bw * 8);
    set_scan_words(100000);
    set_heap_limit(200u << 20);
    sim::run(s.sched, [&q]() { scenario(q); });
    return;
  }
  std::string d = gram_dir(getpid());
  mkdir(d.c_str(), 0700);
  auto put = [&](const char *n, const std::string &t) { FILE *f = fopen(n, "w"); if (!f || fwrite(t.data(), 1, t.size(), f) != t.size()) sim::finish(3, "harness-error", "cannot write grammar"); fclose(f); };
  mkdir((d + "/sub").c_str(), 0700);
  for (auto &f : g_gr.files(d + "/", g_text, g_inc)) put(f.name.c_str(), f.text);
  char err[400];
  E->set_bank_size(bw * 8);
  std::string path = d + "/g.cgr";
  sim::outside("loading a grammar and generating its parser");
  int sc = (int)s.get("scenario");
  bool ok;
  if (sc == SC_CONTEXT || sc == SC_FAULT) { g_ctx = E->ctx_new(path.c_str(), err, sizeof err); ok = g_ctx; }
  else {
    g_gram = E->gram_new(path.c_str(), r.chance(0.5), err, sizeof err);
    ok = g_gram;
    if (ok) {
      E->gram_ids(g_gram, on_id);
      for (auto &u : g_gr.rules) { auto it = g_ids.find(u.name); if (it == g_ids.end()) { ok = false; snprintf(err, sizeof err, "rule %s lost", u.name.c_str()); break; } g_mid.push_back(it->second); }
      if (ok) { g_parser = E->parser_new(g_gram, sc == SC_STAGE1 && s.jobs[0].get("dry"), err, sizeof err); ok = g_parser; }
    }
  }
  sim::outside(nullptr);
  harness_cleanup(getpid());
  if (!ok) {
    if (relevant(s.prop, "setup:grammar")) { std::string m = std::string("a correct grammar is refused: ") + err; sim::finish(2, "setup:grammar", m.c_str()); }
    sim::finish(1, "", "");
  }
  if (!g_idclash.empty() && relevant(s.prop, "setup:grammar")) sim::finish(2, "setup:grammar", g_idclash.c_str());
  if (!g_mid.empty() && g_mid != std::vector<int>()) { for (size_t i = 0; i < g_mid.size(); i++) for (size_t k = 0; k < i; k++) if (g_mid[i] == g_mid[k] && relevant(s.prop, "setup:grammar")) sim::finish(2, "setup:grammar", "two rules share an id"); }
  set_scan_words((uint64_t)bw);
  sim::run(s.sched, [&q]() { scenario(q); });
}
