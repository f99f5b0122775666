// Harness "tree": the real stage runners driven by a stub parser that streams random parse trees.
#include "common.h"
#include <dlfcn.h>
#include <algorithm>
#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <memory>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

using namespace sim;
extern "C" void *(*sim_eh_globals[2])();
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept; }

const char *harness_name = "tree";
bool harness_baton = false;
enum { V_NONREC = 0, V_REC = 1, V_PY = 2 };
static const GlueApi *apis[3];
static const char *libs[3] = {"libsut_nonrec.so", "libsut_rec.so", "libsut_py.so"};
static const GlueApi *G(int v) {
  if (!apis[v]) sim::harness_error("variant not loaded");
  return apis[v];
}
static std::string g_libdir;
static void load(int v) {
  std::string p = g_libdir + "/" + libs[v];
  void *h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(97); }
  apis[v] = ((const GlueApi *(*)())dlsym(h, "glue_api"))();
  sim::private_globals(dlsym(h, "glue_api"));
}
void harness_load(const std::string &d, const std::string &) {
  g_libdir = d;
  for (int v = 0; v < 3; v++) load(v);
}

// ------------------------------------------------------------ workload
void harness_cleanup(int) {}
static const uint64_t OFFMAX = (1ull << 48) - 1;
struct Node {
  int depth, id; uint64_t start, end; uint64_t val;
  int parent = -1; std::vector<int> kids;
  int64_t pos_s = -1, pos_e = -1;     // marker positions in the stream
  bool called = false, done = false;
};

// parametric trees: "G kind n seed"
static void build_param(std::vector<Node> &v, const std::string &kind, int64_t n, uint64_t seed) {
  Rng r(seed);
  uint64_t c = 0;
  auto add = [&](int depth, int id, uint64_t val) { Node x; x.depth = depth; x.id = id; x.start = c++; x.end = 0; x.val = val; v.push_back(x); };
  int nullk = (int)r.below(5);
  auto val = [&]() -> uint64_t { return nullk && r.below(4) < (uint64_t)nullk - 1 ? 0 : r.next() | 1; };
  if (kind == "wide") { add(0, 1, val()); for (int64_t i = 1; i < n; i++) { add(1, 2 + (int)r.below(3), val()); v.back().end = c++; } v[0].end = c++; }
  else if (kind == "deep") { for (int64_t i = 0; i < n; i++) add((int)i, 1 + (int)(i % 7), val()); for (int64_t i = n - 1; i >= 0; i--) v[i].end = c++; }
  else if (kind == "comb") { // chain where every level has leaf children before and after the nested one
    for (int64_t i = 0; i < n / 3 + 1; i++) { add((int)i, 1 + (int)(i % 5), val()); add((int)i + 1, 9, val()); v.back().end = c++; }
    int64_t m = (int64_t)v.size();
    for (int64_t i = m - 2; i >= 0; i -= 2) v[i].end = c++;
  } else harness_error("unknown tree kind");
}
static void link_nodes(std::vector<Node> &v) {
  std::vector<int> st;
  for (size_t i = 0; i < v.size(); i++) {
    while ((int)st.size() > v[i].depth) st.pop_back();
    if (!st.empty()) { v[i].parent = st.back(); v[st.back()].kids.push_back((int)i); }
    st.push_back((int)i);
  }
}
// marker stream, and the position of each marker
static void stream_of(std::vector<Node> &v, std::vector<uint64_t> &out) {
  std::vector<int> st;
  auto close = [&](int i) { v[i].pos_e = (int64_t)out.size(); out.push_back(((uint64_t)v[i].id << 48) | v[i].end); };
  for (size_t i = 0; i < v.size(); i++) {
    while ((int)st.size() > v[i].depth) { close(st.back()); st.pop_back(); }
    v[i].pos_s = (int64_t)out.size();
    out.push_back((1ull << 63) | ((uint64_t)v[i].id << 48) | v[i].start);
    st.push_back((int)i);
  }
  while (!st.empty()) { close(st.back()); st.pop_back(); }
}

static void gen_tree(Rng &r, Job &j, int64_t maxn) {
  int64_t n = r.logrange(1, maxn);
  int idmode = (int)r.below(4);
  static const int ext[] = {1, 2, 0x7FFF, 0x4000, 0x3FFF, 0x7FFE, 0x100, 0xFF};
  auto id = [&]() { return idmode == 0 ? 1 + (int)r.below(5) : idmode == 1 ? ext[r.below(8)] : idmode == 2 ? 1 + (int)r.below(0x7FFF) : 1 + (int)r.below(2); };
  int valmode = (int)r.below(6);
  uint64_t vc = 0;
  auto val = [&]() -> uint64_t {
    switch (valmode) {
      case 0: return ++vc;
      case 1: return r.next() | 1;
      case 2: return r.chance(0.5) ? 0 : (r.next() | 1);
      case 3: return r.chance(0.85) ? 0 : ++vc;
      case 4: { static const uint64_t e[] = {1, ~0ull, 1ull << 63, 0x7fffffffffffffffull, 1ull << 32, 0xffffffffull, (1ull << 63) | (5ull << 48) | 3, 7ull << 48}; return e[r.below(8)]; }
      default: return 0;
    }
  };
  double pup = r.chance(0.3) ? 0.2 : r.chance(0.5) ? 0.5 : 0.8;
  uint64_t gap = r.chance(0.3) ? 1 : (uint64_t)r.logrange(1, 1000000);
  uint64_t base = r.chance(0.2) ? OFFMAX - (uint64_t)(2 * n + 4) * (gap + 1) - 1 : r.chance(0.3) ? (uint64_t)r.logrange(0, 1ll << 40) : 0;
  bool tight = r.chance(0.3);
  std::vector<Node> v; std::vector<int> st;
  uint64_t c = base;
  std::unordered_set<uint64_t> seen;
  for (int64_t i = 0; i < n; i++) {
    if (i) {
      while (st.size() > 1 && r.chance(pup)) { c += tight ? r.below(2) : 1 + r.below(gap); v[st.back()].end = c; st.pop_back(); if (!tight) c++; }
    }
    Node x; x.depth = (int)st.size(); x.id = id(); x.val = val();
    c += tight && r.chance(0.5) ? 0 : 1 + r.below(gap);
    // spans must be distinguishable: no two nodes with the same id and start
    for (int k = 0; seen.count(mix64(c, (uint64_t)x.id)); k++) { if (k > 4) c++; x.id = id(); }
    seen.insert(mix64(c, (uint64_t)x.id));
    x.start = c; x.end = 0;
    v.push_back(x); st.push_back((int)i);
  }
  while (!st.empty()) { c += tight ? r.below(2) : 1 + r.below(gap); v[st.back()].end = c; st.pop_back(); }
  for (auto &x : v) {
    char b[160];
    snprintf(b, sizeof b, "n %d %d %" PRIu64 " %" PRIu64 " %" PRId64, x.depth, x.id, x.start, x.end, (int64_t)x.val);
    j.w.push_back(b);
  }
  j.p["nodes"] = n;
}

static void gen_job(Rng &r, Job &j, const std::string &prop, int64_t maxn, bool special) {
  int64_t markers;
  if (special) {
    static const char *kinds[] = {"wide", "deep", "comb"};
    int64_t n; std::string k;
    if (r.chance(0.5)) { k = kinds[r.below(3)]; n = r.logrange(500, k == std::string("wide") ? 70000 : 12000); j.p["bank_words"] = r.logrange(40, 8192); if (k == std::string("wide")) j.p["bank_words"] = r.logrange(500, 200000); if (k == "wide" && r.chance(0.3)) { n = (r.chance(0.5) ? 65536 : r.chance(0.5) ? 32768 : 256) + r.range(-2, 6); j.p["bank_words"] = r.chance(0.6) ? 2 * n + r.range(-4, 4) : r.logrange(n, 4 * n); } }
    else if (r.chance(0.15)) { k = "wide"; n = (r.chance(0.5) ? 16384 : 32768) + r.range(-3, 400); j.p["bank_words"] = 1; j.p["many"] = 1; }    // more buffers than 15 or 16 bits can number
    else { k = kinds[r.below(3)]; n = r.range(400, 1500); j.p["bank_words"] = r.range(1, 3); }
    j.w.push_back("G " + k + " " + std::to_string(n) + " " + std::to_string(r.next() >> 1));
    markers = 2 * n;
  } else {
    gen_tree(r, j, maxn);
    markers = 2 * j.p["nodes"];
    int64_t bw;
    double u = r.unit();
    if (u < 0.35) bw = r.range(1, 6);
    else if (u < 0.55) {  // a divisor of the marker count: the stream ends exactly at a boundary
      std::vector<int64_t> d; for (int64_t k = 1; k <= markers; k++) if (markers % k == 0) d.push_back(k);
      bw = d[r.below(d.size())];
    } else if (u < 0.85) bw = r.logrange(1, markers + 2);
    else bw = r.logrange(1, 4 * markers + 8);
    // keep the number of banks reasonable
    if (markers / bw > 400) bw = markers / 400;
    j.p["bank_words"] = bw;
  }
  int64_t banks = r.chance(0.7) ? r.range(1, 8) : r.range(1, 40);
  if (r.chance(0.3)) banks = 2 * r.range(1, 6);         // what Context uses
  int64_t workers = r.range(1, std::min<int64_t>(banks, r.chance(0.8) ? 4 : 12));
  j.p["banks"] = banks; j.p["workers"] = workers;
  j.p["order"] = r.chance(0.5) ? 0 : (int64_t)r.below(1000);    // start order: 0 = as Context does it
  j.p["dorder"] = r.chance(0.5) ? 0 : (int64_t)r.below(1000);   // destruction order
  j.p["xfer"] = 0; j.p["counter"] = 0; j.p["dry"] = 0; j.p["capture"] = 0; j.p["reject"] = -1;
  if (r.chance(0.3)) j.p["counter"] = 1;
  if (r.chance(0.2)) j.p["xfer"] = 1;
  if (r.chance(0.15)) j.p["capture"] = 1;
  if (prop == "C15") j.p["counter"] = 1;
  if (prop == "C16") j.p["xfer"] = 1;
  if (prop == "C10") { j.p["capture"] = 1; if (r.chance(0.4)) { j.p["dry"] = 1; } }
  if (prop == "C11") j.p["reject"] = (int64_t)r.below((uint64_t)markers + 1);
  if (prop == "C10" && r.chance(0.2)) j.p["reject"] = (int64_t)r.below((uint64_t)markers + 1);
}

// scenarios
enum { SC_SINGLE = 0, SC_SEQUENCE, SC_CRASH, SC_FAULT, SC_ISOLATION };

static const struct { const char *name; int errs[6]; } SYS[] = {
    {"open", {2, 13, 24, 23, 12, 0}}, {"fstat", {5, 12, 75, 0}}, {"mmap", {12, 13, 11, 19, 0}},
    {"shm_open", {13, 24, 23, 2, 0}}, {"ftruncate", {28, 5, 22, 0}}, {"sem_open", {13, 24, 12, 28, 0}}};

void harness_gen(const std::string &prop, uint64_t seed, uint64_t index, bool thorough, Spec &s) {
  Rng r(seed);
  s.prop = prop; s.harness = "tree";
  bool special = index % 97 == 13;
  int64_t maxn = thorough ? (r.chance(0.1) ? 1500 : 200) : (r.chance(0.05) ? 600 : 80);
  int variant = (int)r.below(3);
  if (prop == "C12") variant = V_PY;
  s.p["variant"] = variant;
  s.p["topo"] = variant != V_NONREC && r.chance(prop == "C12" ? 0.8 : 0.4);
  int sc = SC_SINGLE;
  if (prop == "C06") sc = SC_SEQUENCE;
  if (prop == "C07") sc = SC_CRASH;
  if (prop == "C08") sc = SC_FAULT;
  if (prop == "C09") sc = SC_ISOLATION;
  if (sc != SC_SINGLE) { maxn = std::min<int64_t>(maxn, 40); special = special && sc == SC_SEQUENCE && index % 970 == 13; }
  s.p["scenario"] = sc;
  int njobs = sc == SC_SEQUENCE ? (int)r.range(2, 6) : sc == SC_CRASH ? (int)r.range(2, 3) : sc == SC_FAULT ? 2 : sc == SC_ISOLATION ? (int)r.range(2, 4) : 1;
  if (sc == SC_FAULT) s.p["topo"] = 0;
  for (int i = 0; i < njobs; i++) {
    s.jobs.emplace_back();
    gen_job(r, s.jobs.back(), prop, maxn, special && i == 0);
    if (s.jobs.back().get("many") && variant == V_PY) {      // there the value queues make this quadratic
      if (prop == "C12") s.jobs.back().p["bank_words"] = 100; else { s.p["variant"] = V_NONREC; s.p["topo"] = 0; }
    }
  }
  if (sc == SC_CRASH) {
    for (int i = 0; i + 1 < njobs; i++) {
      Job &j = s.jobs[i];
      if (r.chance(0.4)) { j.p["kill_sys"] = r.range(1, 14 + 10 * j.get("workers")); j.p["kill_ev"] = 0; }
      else { j.p["kill_sys"] = 0; j.p["kill_ev"] = r.chance(0.3) ? r.logrange(1, 400) : r.range(1, 300 + 40 * j.get("nodes", 20)); }
      if (s.p["topo"] && r.chance(0.5)) j.p["kill_delay"] = r.logrange(1, 500);   // workers die a little later
    }
    // the same shape of run afterwards makes stale contents as dangerous as possible
    if (r.chance(0.5)) { s.jobs.back().p["banks"] = s.jobs[0].p["banks"]; s.jobs.back().p["workers"] = std::min(s.jobs.back().p["workers"], s.jobs[0].p["banks"]); }
    if (r.chance(0.5)) s.jobs.back().p["bank_words"] = s.jobs[0].p["bank_words"];
  }
  if (sc == SC_FAULT) {
    Job &j = s.jobs[0];
    int nf = r.chance(0.8) ? 1 : (int)r.range(2, 3);
    for (int i = 0; i < nf; i++) {
      auto &f = SYS[r.below(6)];
      int ne = 0; while (f.errs[ne]) ne++;
      int64_t stages = 2 + j.get("workers");
      int64_t per = !strcmp(f.name, "mmap") ? 4 : 1;
      char b[100];
      snprintf(b, sizeof b, "F %s %" PRId64 " %d", f.name, r.range(1, per * stages) * (r.chance(0.35) ? -1 : 1), f.errs[r.below((uint64_t)ne)]);
      j.w.push_back(b);
    }
    if (r.chance(0.1)) { j.w.push_back("M"); }   // input file does not exist at all
    s.jobs[1].w = j.w;
    s.jobs[1].w.erase(std::remove_if(s.jobs[1].w.begin(), s.jobs[1].w.end(), [](const std::string &l) { return l[0] == 'F' || l[0] == 'M'; }), s.jobs[1].w.end());
  }
  if (sc == SC_ISOLATION) {
    s.p["same_file"] = r.chance(0.5);
    // pids that look alike: prefixes, suffixes, equal modulo powers of two and ten, extremes
    static const int64_t pidsets[][4] = {{100, 101, 102, 103}, {1, 10, 11, 111}, {4194303, 4194304, 419430, 41943}, {12, 123, 1234, 12345}, {12, 112, 1112, 2112}};
    static const int64_t strides[] = {256, 1000, 4096, 10000, 32768, 65536, 100000, 1 << 20, 1000000, 99};
    int ps = (int)r.below(10);
    int64_t pbase = r.logrange(2, 60000), pstride = strides[r.below(10)];
    for (int i = 0; i < njobs; i++) {
      Job &j = s.jobs[i];
      j.p["pid"] = ps < 5 ? pidsets[ps][i] : pbase + i * pstride;
      j.p["delay"] = r.chance(0.5) ? 0 : r.logrange(1, 3000);
      if (i == 0 && r.chance(0.3)) { j.p["kill_ev"] = r.logrange(1, 4000); }
    }
  }
  gen_sched(r, s.sched, prop == "C05" ? 1.5 : 1.0);
  if (special) { s.sched.p_switch = std::min(s.sched.p_switch, 0.05); s.sched.max_events = 20000000; }
  if (s.jobs[0].get("many")) {     // tens of thousands of hand-overs: without long waits for each
    s.sched.strategy = 0; s.sched.p_switch = r.chance(0.5) ? 0.1 : 0.4; s.sched.p_after = 0.5;
    for (double &x : s.sched.rate) x = std::min(x, 0.0005);
    s.jobs[0].p["banks"] = std::max<int64_t>(s.jobs[0].p["banks"], 3); s.jobs[0].p["workers"] = std::min<int64_t>(s.jobs[0].p["workers"], 3);
  }
}

// ------------------------------------------------------------ executing one job
struct JobCtx;
struct Lctx {               // listener context of one stage object
  JobCtx *J; int stage, worker;
  Lctx(JobCtx *j, int s, int w) : J(j), stage(s), worker(w) {}
  bool holding = false; int64_t number = -1;
  // emulation of the Python adapters (serialised variant)
  std::vector<uint64_t> vals; bool have = false, first = true;
  std::deque<std::deque<uint64_t>> iters;
};
struct JobCtx {
  const Job *job; const GlueApi *g; int variant; bool topo; int index;
  std::vector<Node> nodes; std::vector<uint64_t> stream;
  std::unordered_map<uint64_t, std::vector<int>> by_key;
  int64_t bw, banks, workers, reject;
  int64_t pages = 0;            // banks handed out by feed so far
  std::vector<std::vector<uint64_t>> pagewords;   // as written by the stub
  uint64_t calls = 0; uint64_t done = 0;
  void *counter = nullptr; int64_t counter_base = 0;
  std::vector<std::deque<uint64_t>> channels; std::vector<bool> channel_full;
  // transfer protocol
  std::unordered_map<int64_t, int> acquired; std::unordered_map<int64_t, int64_t> released; int64_t next3 = 0; int64_t cur3 = -1;
  bool completed = false;
  const void *ret = nullptr; bool reject_hit = false;
  std::deque<Lctx> lctx;
  int xfer_seen = 0;
  bool parsing_done = false;
};
static void init_job(JobCtx &J, const Spec &s, const Job &j, int index) {
  J.job = &j; J.variant = (int)s.get("variant"); J.g = G(J.variant); J.topo = s.get("topo") != 0; J.index = index;
  J.bw = std::max<int64_t>(1, j.get("bank_words", 4)); J.banks = std::max<int64_t>(1, j.get("banks", 2)); J.workers = std::max<int64_t>(1, std::min(j.get("workers", 1), J.banks));
  J.reject = j.get("reject", -1);
  for (auto &l : j.w) {
    std::istringstream in(l); std::string k; in >> k;
    if (k == "n") { Node x; int64_t v; in >> x.depth >> x.id >> x.start >> x.end >> v; x.val = (uint64_t)v; J.nodes.push_back(x); }
    else if (k == "G") { std::string kind; int64_t n; uint64_t sd; in >> kind >> n >> sd; build_param(J.nodes, kind, n, sd); }
  }
  if (J.nodes.empty()) { Node x; x.depth = 0; x.id = 1; x.start = 0; x.end = 1; x.val = 1; J.nodes.push_back(x); }
  link_nodes(J.nodes); stream_of(J.nodes, J.stream);
  if (J.reject > (int64_t)J.stream.size()) J.reject = (int64_t)J.stream.size();
  for (size_t i = 0; i < J.nodes.size(); i++) J.by_key[mix64(mix64(J.nodes[i].start, J.nodes[i].end), (uint64_t)J.nodes[i].id)].push_back((int)i);
  J.channels.resize(J.banks); J.channel_full.resize(J.banks);
}

static void slow_callback() {
  int64_t k;
  if (fault(F_SLOWCB, &k, 40)) for (int64_t i = 0; i <= k; i++) yield();
}

// --- the stub parser: stores markers the way the generated code does
static const void *stub_parse(void *user, void *listener, const void *input) {
  JobCtx &J = *(JobCtx *)user;
  int64_t limit = J.reject >= 0 ? J.reject : (int64_t)J.stream.size();
  uint64_t *out = nullptr, *bound = nullptr;
  auto page = [&]() {
    out = (uint64_t *)J.g->feed(listener);
    bound = out + J.bw;
    J.pages++;
    J.pagewords.emplace_back();
    if ((J.pages & 3) == 0) slow_callback();
  };
  auto put = [&](uint64_t v) {
    mem_write(out, 8, "marker");
    *out++ = v; J.pagewords.back().push_back(v);
  };
  page();
  for (int64_t i = 0; i < limit; i++) {
    put(J.stream[(size_t)i]);
    if (out == bound) page();
  }
  // remaining space is zeroed
  if (out < bound) {
    mem_write(out, (size_t)((char *)bound - (char *)out), "landfill");
    memset(out, 0, (size_t)((char *)bound - (char *)out));
    while (out++ < bound) J.pagewords.back().push_back(0);
  }
  J.parsing_done = true;
  J.reject_hit = J.reject >= 0;
  J.ret = J.reject >= 0 ? nullptr : (const char *)input + 1;
  return J.ret;
}

static std::string vlist(const uint64_t *v, int n) {
  std::string o = "[";
  for (int i = 0; i < n && i < 12; i++) { char b[32]; snprintf(b, sizeof b, "%s%" PRIx64, i ? "," : "", v[i]); o += b; }
  return o + (n > 12 ? ",..]" : "]");
}

static long on_reduce(const void *symbol, uint64_t *values, int num, void *ctx) {
  Lctx &L = *(Lctx *)ctx; JobCtx &J = *L.J;
  mem_check(symbol, 24, false, "symbol");
  long id, st, en;
  J.g->symbol(symbol, &id, &st, &en);
  point(7, (uint64_t)id, (uint64_t)st);
  progress();
  J.calls++;
  trace("reduce id=%ld [%ld,%ld) num=%d stage=%d worker=%d", id, st, en, num, L.stage, L.worker);
  auto it = J.by_key.find(mix64(mix64((uint64_t)st, (uint64_t)en), (uint64_t)id));
  Node *n = nullptr;
  if (it != J.by_key.end()) { for (int i : it->second) if (!J.nodes[i].called) { n = &J.nodes[i]; break; } if (!n) n = &J.nodes[it->second[0]]; }
  if (!n) { report("reduction:phantom", "construct id=%ld [%ld,%ld) reported but not in the input", id, st, en); return 1; }
  if (n->called) { report("reduction:duplicate", "construct id=%ld [%ld,%ld) reported twice", id, st, en); return (long)n->val; }
  n->called = true;
  for (int k : n->kids) if (!J.nodes[k].done) { report("reduction:order", "construct id=%ld [%ld,%ld) reported before the construct id=%d nested in it", id, st, en, J.nodes[k].id); break; }
  if (J.reject >= 0 && n->pos_e >= J.reject) report("reduction:phantom", "construct id=%ld [%ld,%ld) reported although its end was never reached", id, st, en);
  if (J.counter) {
    int c = J.g->counter_get(J.counter) - (int)J.counter_base;
    if (c < 0 || (uint64_t)c > J.calls) report("counter:high", "counter at %d while only %" PRIu64 " listener calls were made", c, J.calls);
  }
  // transfer protocol
  if (L.J->job->get("xfer") || J.variant == V_PY) {
    if (L.stage == 2) {
      if (!L.holding) report("transfer:missing", "reduction by a reducer that was told of no buffer");
      else if (n->pos_s / J.bw != L.number || n->pos_e / J.bw != L.number) report("transfer:foreign-reduction", "reducer holding buffer %" PRId64 " reduced a construct of buffers %" PRId64 "..%" PRId64, L.number, n->pos_s / J.bw, n->pos_e / J.bw);
    } else if (n->pos_e / J.bw != J.cur3) report("transfer:foreign-reduction", "merger announced buffer %" PRId64 " but reduced a construct ending in buffer %" PRId64, J.cur3, n->pos_e / J.bw);
  }
  // values
  std::vector<uint64_t> exp;
  for (int k : n->kids) if (J.variant == V_REC || J.nodes[k].val) exp.push_back(J.nodes[k].val);
  const uint64_t *got = values;
  std::vector<uint64_t> own;
  if (J.variant == V_PY) {
    if (L.stage == 3) {
      mem_check(values, 8, false, "values");
      uint64_t shift = values[0];
      while (shift > 0) {
        if (L.iters.empty()) { report("values:shift", "merger told to take %" PRIu64 " more values than the reducers produced", shift); break; }
        if (L.iters.front().empty()) { L.iters.pop_front(); continue; }
        L.vals.push_back(L.iters.front().front()); L.iters.front().pop_front(); shift--;
      }
    }
    if (num < 0 || (size_t)num > L.vals.size()) { report("values:count", "action for id=%ld [%ld,%ld) given %d values but only %zu exist", id, st, en, num, L.vals.size()); num = (int)L.vals.size(); }
    own.assign(L.vals.end() - num, L.vals.end());
    got = own.data();
    L.vals.resize(L.vals.size() - (size_t)num);
  } else if (num > 0) mem_check(values, (size_t)num * 8, false, "values");
  if (num != (int)exp.size()) report("values:count", "action for id=%ld [%ld,%ld) got %d values, expected %zu", id, st, en, num, exp.size());
  else for (int i = 0; i < num; i++) if (got[i] != exp[(size_t)i]) { report("values:wrong", "action for id=%ld [%ld,%ld) got %s, expected %s", id, st, en, vlist(got, num).c_str(), vlist(exp.data(), num).c_str()); break; }
  slow_callback();
  if (J.variant != V_PY) for (int i = 0; i < num && i < (int)exp.size(); i++) if (got[i] != exp[(size_t)i]) { report("values:wrong", "values of id=%ld [%ld,%ld) changed while the action was running", id, st, en); break; }
  n->done = true; J.done++;
  if (J.variant == V_PY) { if (n->val) { L.vals.push_back(n->val); return 1; } return 0; }
  return (long)n->val;
}

static void on_xfer(int a, int b, void *ctx) {
  Lctx &L = *(Lctx *)ctx; JobCtx &J = *L.J;
  point(8, (uint64_t)(a + 2), (uint64_t)b);
  progress();
  J.xfer_seen++;
  trace("transfer(%d,%d) stage=%d worker=%d", a, b, L.stage, L.worker);
  slow_callback();
  if (L.stage == 2) {
    if (!L.holding) {
      if (a != -1) { report("transfer:protocol", "reducer gave up buffer slot %d it was never told it had", a); return; }
      if (b < 0 || b >= J.pages) report("transfer:number", "reducer told it took buffer number %d; %" PRId64 " were filled", b, J.pages);
      if (J.acquired[b]++) report("transfer:duplicate", "buffer number %d announced to two reducers", b);
      L.holding = true; L.number = b; L.vals.clear();
    } else {
      if (b != -1 || a < 0 || a >= J.banks) report("transfer:protocol", "unexpected notification (%d,%d) to a reducer holding buffer %" PRId64, a, b, L.number);
      if (L.number < J.next3) report("transfer:order", "buffer %" PRId64 " reached the merger before its reducer was told it gave it up", L.number);
      if (J.released.count(L.number)) report("transfer:duplicate", "buffer %" PRId64 " given up twice", L.number);
      J.released[L.number] = a;
      if (J.variant == V_PY && a >= 0 && a < J.banks) {
        if (J.channel_full[a]) report("transfer:order", "slot %d handed over twice without being taken", a);
        J.channels[a].assign(L.vals.begin(), L.vals.end()); J.channel_full[a] = true;
      }
      L.holding = false; L.number = -1; L.vals.clear();
    }
  } else {
    if (b != J.next3) report("transfer:order", "merger took buffer %d, expected %" PRId64, b, J.next3);
    auto it = J.released.find(b);
    if (it == J.released.end()) report("transfer:order", "merger took buffer %d before its reducer gave it up", b);
    else if (it->second != a) report("transfer:slot", "merger took buffer %d from slot %d, its reducer left it in slot %" PRId64, b, a, it->second);
    J.next3 = b + 1; J.cur3 = b;
    if (J.variant == V_PY && a >= 0 && a < J.banks) {
      std::deque<uint64_t> q = J.channels[a];
      J.channel_full[a] = false; J.channels[a].clear();
      if (L.first) { L.vals.assign(q.begin(), q.end()); L.first = false; }
      else L.iters.push_back(q);
    }
  }
}

struct Stage { int kind; void *obj; Lctx *l; };
static const char *INPUT = "/sim/input";

static std::string input_name(const Spec &s, int idx) { return s.get("same_file") ? INPUT : std::string(INPUT) + std::to_string(idx); }

static void check_done(JobCtx &J, void *st1) {
  const Job &j = *J.job;
  bool dry = j.get("dry");
  // parser result
  const void *res = J.g->result(st1);
  if (res != J.ret) report("result:wrong", "parse result not what the parser returned (%s)", J.reject >= 0 ? "input was rejected" : "input was accepted");
  // capture
  if (j.get("capture")) {
    size_t n = J.g->nchunks(st1);
    if ((int64_t)n != J.pages) report("capture:count", "%zu chunks captured, the parser filled %" PRId64 " buffers", n, J.pages);
    for (size_t i = 0; i < n && (int64_t)i < J.pages; i++) {
      size_t w; const uint64_t *c = J.g->chunk(st1, i, &w);
      if ((int64_t)w != J.bw) { report("capture:size", "chunk %zu has %zu entries, buffers have %" PRId64, i, w, J.bw); continue; }
      mem_check(c, w * 8, false, "chunk");
      for (size_t k = 0; k < w && k < J.pagewords[i].size(); k++) if (c[k] != J.pagewords[i][k]) { report("capture:content", "chunk %zu entry %zu is %" PRIx64 ", the parser wrote %" PRIx64, i, k, c[k], J.pagewords[i][k]); break; }
    }
  } else if (J.g->nchunks(st1) != 0) report("capture:count", "chunks captured although capture is off");
  if (dry) {
    if (J.calls) report("reduction:phantom", "reductions in a dry run");
    return;
  }
  // every construct reduced
  for (auto &n : J.nodes) {
    bool expect = J.reject < 0 || n.pos_e < J.reject;
    if (expect && !n.called && J.reject < 0) { report("reduction:missing", "construct id=%d [%" PRIu64 ",%" PRIu64 ") never reported", n.id, n.start, n.end); break; }
  }
  if (J.counter) {
    int c = J.g->counter_get(J.counter);
    if (c - J.counter_base != (int64_t)J.calls) report("counter:total", "counter rose by %" PRId64 " for %" PRIu64 " reductions", c - J.counter_base, J.calls);
    J.counter_base = c;
  }
  if (j.get("xfer") || J.variant == V_PY) {
    for (int64_t i = 0; i < J.pages; i++) {
      if (J.acquired[i] != 1) { report("transfer:missing", "buffer %" PRId64 " announced to %d reducers", i, J.acquired[i]); break; }
      if (!J.released.count(i)) { report("transfer:missing", "buffer %" PRId64 " never announced as given up", i); break; }
    }
    if (J.next3 != J.pages) report("transfer:missing", "merger was told of %" PRId64 " of %" PRId64 " buffers", J.next3, J.pages);
  }
  J.completed = true;
}

static std::vector<int> permute(int n, int64_t code, bool identity) {
  std::vector<int> v(n);
  for (int i = 0; i < n; i++) v[i] = i;
  if (!identity) { Rng r((uint64_t)code * 77 + 5); for (int i = n - 1; i > 0; i--) std::swap(v[i], v[r.below((uint64_t)i + 1)]); }
  return v;
}

// One parse in the current process.  Returns 0 = completed, 1 = setup error reported.
static int run_local(JobCtx &J, const std::string &file, int pid, void *counter) {
  const Job &j = *J.job; const GlueApi *g = J.g;
  char err[400];
  std::vector<Stage> st;
  bool dry = j.get("dry");
  J.counter = counter;
  if (counter) J.counter_base = g->counter_get(counter);
  void *parser = g->parser_new(stub_parse, &J);
  auto fail = [&](const char *what) {
    trace("%s setup error: %s", what, err);
    for (auto &x : st) g->destroy(x.obj);
    g->parser_delete(parser);
    return 1;
  };
  void *s1 = g->stage1_new(file.c_str(), parser, (size_t)J.bw * 8, (int)J.banks, dry, (int)j.get("capture"), err, sizeof err);
  if (!s1) return fail("stage 1");
  st.push_back({1, s1, nullptr});
  bool xf = j.get("xfer") || J.variant == V_PY;
  if (!dry) {
    for (int i = 0; i < J.workers; i++) {
      J.lctx.push_back(Lctx(&J, 2, i));
      void *o = g->stage2_new(file.c_str(), (size_t)J.bw * 8, (int)J.banks, pid, &J.lctx.back(), counter, err, sizeof err);
      if (!o) return fail("stage 2");
      g->listen(o, 2, on_reduce, xf ? on_xfer : nullptr);
      st.push_back({2, o, &J.lctx.back()});
    }
    J.lctx.push_back(Lctx(&J, 3, 0));
    void *o = g->stage3_new(file.c_str(), (size_t)J.bw * 8, (int)J.banks, pid, &J.lctx.back(), counter, err, sizeof err);
    if (!o) return fail("stage 3");
    g->listen(o, 3, on_reduce, xf ? on_xfer : nullptr);
    st.push_back({3, o, &J.lctx.back()});
  }
  for (int i : permute((int)st.size(), j.get("order"), j.get("order") == 0))
    if (!g->start(st[i].obj, err, sizeof err)) { report("setup:start", "start failed: %s", err); return 1; }
  for (auto &x : st) g->wait(x.obj, err, sizeof err);
  check_done(J, s1);
  if (g->input_size(s1) != 100) report("result:input", "input size wrong");
  for (int i : permute((int)st.size(), j.get("dorder"), j.get("dorder") == 0)) g->destroy(st[i].obj);
  g->parser_delete(parser);
  return 0;
}

// One parse with every reducer and the merger in a process of its own (as the Python library arranges it).
static int run_multi(JobCtx &J, const std::string &file, int pid, std::vector<Proc *> *procs) {
  const Job &j = *J.job; const GlueApi *g = J.g;
  char err[400];
  bool dry = j.get("dry");
  void *parser = g->parser_new(stub_parse, &J);
  void *s1 = g->stage1_new(file.c_str(), parser, (size_t)J.bw * 8, (int)J.banks, dry, (int)j.get("capture"), err, sizeof err);
  if (!s1) { report("setup:error", "stage 1 failed without any fault: %s", err); return 1; }
  bool early = j.get("order") & 1;
  if (early) g->start(s1, err, sizeof err);
  std::vector<Proc *> ps;
  if (!dry) for (int i = 0; i <= J.workers; i++) {
    bool three = i == J.workers;
    J.lctx.push_back(Lctx(&J, three ? 3 : 2, i));
    Lctx *l = &J.lctx.back();
    Proc *p = spawn(pid + 1 + i, three ? "merger" : "reducer", [&J, l, three, file, pid]() {
      const GlueApi *g = J.g; char err[400];
      bool xf = J.job->get("xfer") || J.variant == V_PY;
      void *o = three ? g->stage3_new(file.c_str(), (size_t)J.bw * 8, (int)J.banks, pid, l, nullptr, err, sizeof err)
                      : g->stage2_new(file.c_str(), (size_t)J.bw * 8, (int)J.banks, pid, l, nullptr, err, sizeof err);
      if (!o) { report("setup:error", "stage failed without any fault: %s", err); return 1; }
      g->listen(o, three ? 3 : 2, on_reduce, xf ? on_xfer : nullptr);
      g->start(o, err, sizeof err);
      g->wait(o, err, sizeof err);
      g->destroy(o);
      Ledger q = ledger();
      if (q.fds || q.maps || q.sems || q.threads || q.allocs) report("leak:worker", "a worker process still holds after its parse: %s", ledger_detail().c_str());
      return 0;
    });
    ps.push_back(p);
    if (procs) procs->push_back(p);
  }
  if (!early) g->start(s1, err, sizeof err);
  g->wait(s1, err, sizeof err);
  for (auto p : ps) join_proc(p);
  check_done(J, s1);
  g->destroy(s1);
  g->parser_delete(parser);
  return 0;
}

static void check_ledger(const Ledger &b, const char *when) {
  Ledger l = ledger();
  if (l.fds != b.fds || l.maps != b.maps || l.sems != b.sems || l.threads != b.threads || l.allocs != b.allocs)
    report(l.fds != b.fds ? "leak:fd" : l.maps != b.maps ? "leak:mapping" : l.sems != b.sems ? "leak:semaphore" : l.threads != b.threads ? "leak:thread" : "leak:memory", "%s the process still holds: %s", when, ledger_detail().c_str());
}
static void check_names(const char *when) {
  auto v = named_objects();
  if (!v.empty()) report("leak:name", "%s a named object still exists: %s", when, v[0].c_str());
}

static void scenario(const Spec &s) {
  int sc = (int)s.get("scenario");
  bool topo = s.get("topo");
  std::vector<std::unique_ptr<JobCtx>> js;
  std::string content(100, 'x');
  for (size_t i = 0; i < s.jobs.size(); i++) { js.emplace_back(new JobCtx); init_job(*js.back(), s, s.jobs[i], (int)i); put_file(input_name(s, (int)i), content); }
  const GlueApi *g = G((int)s.get("variant"));
  auto nontrivial = [&](JobCtx &J) { if (J.pages > 1 && J.calls > 1) g_res->nontrivial = 1; if (J.pages > J.banks) probe(0); if (J.pages > 1) probe(1); if (J.stream.size() % (size_t)J.bw == 0) probe(2); if (J.workers > 1) probe(3); };
  if (sc == SC_SINGLE || sc == SC_SEQUENCE) {
    Proc *p = spawn(500, "master", [&]() {
      void *counter = nullptr;
      bool any = false; for (auto &j : s.jobs) any |= j.get("counter") != 0;
      Ledger b0 = ledger();
      if (any && !topo) counter = g->counter_new();
      Ledger b = ledger();
      for (size_t i = 0; i < js.size(); i++) {
        JobCtx &J = *js[i];
        int rc = topo ? run_multi(J, input_name(s, (int)i), 500, nullptr) : run_local(J, input_name(s, (int)i), 500, J.job->get("counter") ? counter : nullptr);
        if (rc) { report("setup:error", "parse %zu could not be set up although nothing failed", i); return 1; }
        nontrivial(J);
        check_ledger(b, "after a completed parse");
        check_names("after a completed parse");
      }
      if (counter) g->counter_delete(counter);
      check_ledger(b0, "after the last parse");
      return 0;
    });
    join_proc(p);
  } else if (sc == SC_CRASH) {
    for (size_t i = 0; i < js.size(); i++) {
      JobCtx &J = *js[i];
      bool last = i + 1 == js.size();
      std::vector<Proc *> workers;
      Proc *p = spawn(500, last ? "survivor" : "victim", [&]() {
        int rc = topo ? run_multi(J, input_name(s, (int)i), 500, &workers) : run_local(J, input_name(s, (int)i), 500, nullptr);
        if (rc) report("setup:error", "run %zu could not be set up because of what an earlier, killed run left behind", i);
        return rc;
      });
      if (!last) {
        if (J.job->get("kill_sys")) kill_at_syscall(p, (uint64_t)J.job->get("kill_sys"));
        if (J.job->get("kill_ev")) kill_at_event(p, (uint64_t)J.job->get("kill_ev"));
      }
      join_proc(p);
      if (proc_killed(p)) {
        probe(10);
        if (J.pages) probe(11);
        if (!named_objects().empty()) { probe(12); g_res->nontrivial = 1; }
        for (int64_t k = 0; k < J.job->get("kill_delay"); k++) yield();
        for (auto w : workers) if (!proc_done(w)) kill_now(w);
        for (auto w : workers) join_proc(w);
      } else if (last && !J.completed && !J.job->get("dry")) report("reduction:missing", "the run after a killed one did not complete");
    }
  } else if (sc == SC_FAULT) {
    JobCtx &J = *js[0], &K = *js[1];
    std::vector<OsFaultPlan> plan; bool missing = false;
    for (auto &l : J.job->w) {
      std::istringstream in(l); std::string k; in >> k;
      if (k == "F") { OsFaultPlan f; in >> f.name >> f.nth >> f.err; plan.push_back(f); }
      if (k == "M") missing = true;
    }
    Proc *p = spawn(500, "master", [&]() {
      Ledger b = ledger();
      set_os_fault_plan(cur_proc(), plan);
      int rc = run_local(J, missing ? "/sim/nonexistent" : input_name(s, 0), 500, nullptr);
      set_os_fault_plan(cur_proc(), {});
      if (rc == 1) {
        g_res->nontrivial = 1; probe(20);
        if (!missing && os_faults_fired().empty()) report("setup:error", "setup failed although no fault was injected");
        if (J.calls) report("reduction:phantom", "constructs reported by a run whose setup failed");
      } else if (missing) report("setup:unreported", "missing input file not reported");
      check_ledger(b, "after a failed setup");
      check_names("after a failed setup");
      rc = run_local(K, input_name(s, 1), 500, nullptr);
      if (rc) report("setup:error", "retry after a failed setup failed although the cause is gone");
      check_ledger(b, "after the retry");
      check_names("after the retry");
      return 0;
    });
    join_proc(p);
  } else if (sc == SC_ISOLATION) {
    std::vector<Proc *> ps;
    int alive = 0, overlap = 0;
    std::vector<std::vector<Proc *>> workers(js.size());
    for (size_t i = 0; i < js.size(); i++) {
      JobCtx &J = *js[i];
      int pid = (int)J.job->get("pid", 100 + (int64_t)i) * (topo ? 50 : 1);
      Proc *p = spawn(pid, "master", [&, i, pid]() {
        JobCtx &J = *js[i];
        for (int64_t k = 0; k < J.job->get("delay"); k++) yield();
        if (++alive > 1) overlap = 1;
        int rc = topo ? run_multi(J, input_name(s, (int)i), pid, &workers[i]) : run_local(J, input_name(s, (int)i), pid, nullptr);
        alive--;
        if (rc) report("setup:error", "a parse could not be set up while another process was parsing");
        nontrivial(J);
        return rc;
      });
      if (J.job->get("kill_ev")) kill_at_event(p, (uint64_t)J.job->get("kill_ev"));
      ps.push_back(p);
    }
    bool killed = false;
    for (size_t i = 0; i < ps.size(); i++) {
      join_proc(ps[i]);
      if (proc_killed(ps[i])) { killed = true; for (auto w : workers[i]) { if (!proc_done(w)) kill_now(w); join_proc(w); } }
    }
    for (size_t i = 0; i < ps.size(); i++) if (!proc_killed(ps[i]) && !js[i]->completed && !js[i]->job->get("dry") && js[i]->job->get("reject", -1) < 0) report("reduction:missing", "a parse running next to others did not complete");
    if (!killed && !named_objects().empty()) report("named:left", "named object left behind: %s", named_objects()[0].c_str());
    if (overlap) probe(30); else g_res->nontrivial = 0;
    if (killed) probe(31);
  }
}

void harness_exec(const Spec &s) {
  int v = (int)s.get("variant");
  sim_eh_globals[0] = G(v)->eh_globals;
  sim_eh_globals[1] = (void *(*)())&__cxxabiv1::__cxa_get_globals;
  for (const char *c : {"race:", "memory:heap-overflow", "memory:use-after-free"}) if (!relevant(s.prop, c)) ignore_class(c);
  int64_t words = 0;
  for (auto &j : s.jobs) words = std::max(words, j.get("bank_words"));
  set_scan_words((uint64_t)words);
  sim::run(s.sched, [&s]() { scenario(s); });
}
