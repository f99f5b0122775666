#include "common.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cinttypes>
#include <fstream>
#include <sstream>
#include <set>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>

std::string g_prop;
using sim::Result;

std::string hexenc(const std::string &s) { static const char *h = "0123456789abcdef"; std::string o = "x"; for (unsigned char c : s) { o += h[c >> 4]; o += h[c & 15]; } return o; }
std::string hexdec(const std::string &s) { std::string o; auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }; for (size_t i = 1; i + 1 < s.size(); i += 2) o += (char)(v(s[i]) * 16 + v(s[i + 1])); return o; }

std::string spec_text(const Spec &s) {
  std::ostringstream o;
  o << "harness " << s.harness << "\nprop " << s.prop << "\n";
  for (auto &k : s.p) o << "P " << k.first << " " << k.second << "\n";
  for (auto &k : s.s) o << "S " << k.first << " " << k.second << "\n";
  const sim::SchedCfg &c = s.sched;
  o << "sched " << (c.replay ? 1 : 0) << " " << c.seed << " " << c.strategy << " ";
  char b[300];
  snprintf(b, sizeof b, "%.17g %.17g %d %" PRIu64 " %d %" PRIu64, c.p_switch, c.p_after, c.pct_depth, c.pct_len, c.stall_max, c.max_events);
  o << b << "\n";
  for (int i = 0; i < sim::F_NKINDS; i++) if (c.rate[i] > 0) { snprintf(b, sizeof b, "%.17g", c.rate[i]); o << "rate " << i << " " << b << "\n"; }
  for (auto &j : s.jobs) {
    o << "job\n";
    for (auto &k : j.p) o << "p " << k.first << " " << k.second << "\n";
    for (auto &k : j.s) o << "s " << k.first << " " << k.second << "\n";
    for (auto &l : j.w) o << "w " << l << "\n";
  }
  for (auto &d : c.decisions) o << "d " << d.uid << " " << d.evno << " " << d.target << "\n";
  for (auto &f : c.faults) o << "f " << f.kind << " " << f.uid << " " << f.nth << " " << f.arg << "\n";
  for (auto &e : s.expect) o << "expect " << e << "\n";
  return o.str();
}
bool parse_spec(const std::string &t, Spec &s) {
  std::istringstream in(t);
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream l(line);
    std::string k; l >> k;
    if (k == "harness") l >> s.harness;
    else if (k == "prop") l >> s.prop;
    else if (k == "P") { std::string n; int64_t v; l >> n >> v; s.p[n] = v; }
    else if (k == "S") { std::string n, v; l >> n >> v; s.s[n] = v; }
    else if (k == "sched") { int r; auto &c = s.sched; l >> r >> c.seed >> c.strategy >> c.p_switch >> c.p_after >> c.pct_depth >> c.pct_len >> c.stall_max >> c.max_events; c.replay = r; }
    else if (k == "rate") { int i; double v; l >> i >> v; if (i >= 0 && i < sim::F_NKINDS) s.sched.rate[i] = v; }
    else if (k == "job") s.jobs.emplace_back();
    else if (k == "p") { std::string n; int64_t v; l >> n >> v; if (s.jobs.empty()) return false; s.jobs.back().p[n] = v; }
    else if (k == "s") { std::string n, v; l >> n >> v; if (s.jobs.empty()) return false; s.jobs.back().s[n] = v; }
    else if (k == "w") { if (s.jobs.empty()) return false; s.jobs.back().w.push_back(line.size() > 2 ? line.substr(2) : ""); }
    else if (k == "d") { sim::Decision d; l >> d.uid >> d.evno >> d.target; s.sched.decisions.push_back(d); }
    else if (k == "f") { sim::Fault f; l >> f.kind >> f.uid >> f.nth >> f.arg; s.sched.faults.push_back(f); }
    else if (k == "expect") s.expect.push_back(line.substr(7));
    else return false;
  }
  return true;
}

// Which violation classes break which property.
static const std::map<std::string, std::vector<const char *>> REL = {
    {"C01", {"reduction:", "crash:", "hang:", "memory:unmapped", "memory:foreign", "memory:prot"}},
    {"C02", {"values:", "crash:", "hang:", "memory:unmapped", "memory:foreign", "memory:prot"}},
    {"C03", {"", nullptr}},
    {"C04", {"race:", "memory:", "crash:"}},
    {"C05", {"hang:", "crash:", "memory:unmapped", "memory:foreign", "memory:prot"}},
    {"C06", {"leak:", "reduction:", "values:", "setup:", "result:", "crash:", "hang:", "memory:"}},
    {"C07", {"reduction:", "values:", "setup:", "result:", "crash:", "hang:", "memory:unmapped", "memory:foreign", "memory:prot", "memory:bad-munmap"}},
    {"C08", {"setup:", "leak:", "reduction:", "values:", "result:", "crash:", "hang:", "memory:"}},
    {"C09", {"reduction:", "values:", "setup:", "result:", "named:", "crash:", "hang:", "memory:unmapped", "memory:foreign", "memory:prot"}},
    {"C10", {"capture:", "result:", "crash:", "hang:", "memory:unmapped", "memory:foreign", "memory:prot"}},
    {"C11", {"reduction:phantom", "reduction:unfinished", "result:", "leak:", "crash:", "hang:", "memory:"}},
    {"C12", {"reduction:", "values:", "transfer:", "setup:", "result:", "python:", "crash:", "hang:", "memory:"}},
    {"C13", {"", nullptr}},
    {"C14", {"reduction:", "values:", "result:", "crash:", "hang:", "memory:", "setup:"}},
    {"C15", {"counter:", "crash:", "hang:", "memory:unmapped", "memory:foreign", "memory:prot"}},
    {"C21", {"", nullptr}},
    {"C16", {"transfer:", "crash:", "hang:", "memory:unmapped", "memory:foreign", "memory:prot"}},
};
bool relevant(const std::string &prop, const char *cls) {
  auto it = REL.find(prop);
  if (it == REL.end()) return true;
  for (auto p : it->second) if (p && !strncmp(cls, p, strlen(p))) {
    if (!*p && prop != "C21" && !strncmp(cls, "race:", 5)) return false;   // races are C04's business
    return true;
  }
  return false;
}
void report(const char *cls, const char *fmt, ...) {
  char b[1500];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (relevant(g_prop, cls)) sim::violation(cls, "%s", b);
}

void gen_sched(sim::Rng &r, sim::SchedCfg &c, double lv) {
  static const double ps[] = {0.5, 0.3, 0.1, 0.05, 0.02, 0.005, 0.001};
  c.strategy = r.chance(0.3) ? 1 : 0;
  c.p_switch = ps[r.below(7)];
  c.p_after = r.chance(0.5) ? c.p_switch : ps[r.below(3)];
  c.pct_depth = (int)r.range(1, 6);
  c.pct_len = (uint64_t)r.logrange(50, 20000);
  c.stall_max = (int)r.logrange(200, 30000);
  if (lv > 0) {
    if (r.chance(0.4)) c.rate[sim::F_CAS] = lv * (r.chance(0.5) ? 0.05 : 0.4);
    if (r.chance(0.4)) c.rate[sim::F_EINTR] = lv * (r.chance(0.5) ? 0.1 : 0.5);
    if (r.chance(0.5)) c.rate[sim::F_STALL] = lv * (r.chance(0.7) ? 0.003 : 0.03);
    if (r.chance(0.4)) c.rate[sim::F_LATE] = lv * 0.4;
    if (r.chance(0.4)) c.rate[sim::F_SLOWCB] = lv * (r.chance(0.5) ? 0.05 : 0.5);
  }
  c.seed = r.next();
}

// ------------------------------------------------------------ running
static uint8_t *g_statebits;
static Result *map_result() { void *p = mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(97); } return (Result *)p; }
static void reset_result(Result *r) {
  memset((void *)r, 0, offsetof(Result, dec));
  r->spec[0] = 0;
}
static void child_limits(int cpu) {
  struct rlimit rl; rl.rlim_cur = (rlim_t)cpu; rl.rlim_max = (rlim_t)cpu + 10; setrlimit(RLIMIT_CPU, &rl);
  rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
}
static int run_child(Result *r, Spec *fixed, const std::string &prop, uint64_t seed, uint64_t index, bool thorough, bool trace, int cpu) {
  reset_result(r);
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(97); }
  if (pid == 0) {
    child_limits(cpu);
    Spec s;
    if (fixed) s = *fixed; else harness_gen(prop, seed, index, thorough, s);
    g_prop = s.prop;
    std::string t = spec_text(s);
    if (t.size() + 1 < sizeof r->spec) memcpy(r->spec, t.c_str(), t.size() + 1);
    sim::init(r, g_statebits, harness_baton, trace);
    harness_exec(s);
    _exit(96);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (r->status != 1) harness_cleanup(pid);
  if (r->status == 0) {
    r->status = 3;
    snprintf(r->cls, sizeof r->cls, "harness-error");
    snprintf(r->msg, sizeof r->msg, "child ended without a result (wait status 0x%x)", st);
  }
  return r->status;
}

static std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; } return o; }

static std::string replay_text(Result *r) {
  // the spec as run, turned into replay form, plus every recorded non-default decision and fault
  Spec s;
  if (!parse_spec(r->spec, s)) return "";
  if (!s.sched.replay && !r->dec_overflow) {
    s.sched.replay = true;
    s.sched.decisions.assign(r->dec, r->dec + r->ndec);
    s.sched.faults.insert(s.sched.faults.end(), r->flt, r->flt + r->nfault);
    for (int i = 0; i < sim::F_NKINDS; i++) s.sched.rate[i] = 0;
  }
  s.expect.clear();
  s.expect.push_back(std::string("class ") + r->cls);
  char b[64]; snprintf(b, sizeof b, "hash %016" PRIx64, r->hash);
  s.expect.push_back(b);
  s.expect.push_back(std::string("msg ") + r->msg);
  return spec_text(s);
}

static uint64_t run_seed(uint64_t seed, const std::string &prop, uint64_t idx) { return sim::mix64(sim::mix64(seed, sim::hash_str(prop.c_str())), idx); }
struct Rec { uint64_t hash; uint64_t events; uint32_t status, nontrivial; };
struct Agg {
  uint64_t next, done, ok, viol, err, events, switches, forced, progress, sim_ns, procs, threads, syscalls, kills, nontrivial;
  uint64_t faults[sim::F_NKINDS], runs_with_fault[sim::F_NKINDS], probes[64];
  uint64_t stop;
};
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
#define ADD(f, v) __atomic_fetch_add(&(f), (v), __ATOMIC_SEQ_CST)

#ifndef HARNESS_MAIN
#define HARNESS_MAIN main
#else
extern "C"
#endif
int HARNESS_MAIN(int argc, char **argv) {
  std::map<std::string, std::string> o;
  std::vector<std::string> pos;
  for (int i = 1; i < argc; i++) {
    if (!strncmp(argv[i], "--", 2) && i + 1 < argc) { o[argv[i] + 2] = argv[i + 1]; i++; }
    else pos.push_back(argv[i]);
  }
  if (pos.empty()) { fprintf(stderr, "usage\n"); return 97; }
  // addresses never decide anything, but keeping them fixed makes even wild accesses repeatable
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    int cur = personality(0xffffffff);
    if (cur != -1 && !(cur & ADDR_NO_RANDOMIZE) && personality((unsigned long)cur | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  std::string libdir = o["libdir"];
  int cpu = o.count("cpu") ? atoi(o["cpu"].c_str()) : 60;
  signal(SIGPIPE, SIG_IGN);
  if (pos[0] == "replay") {
    std::ifstream f(o["file"]); std::stringstream ss; ss << f.rdbuf();
    Spec s; if (!parse_spec(ss.str(), s)) { fprintf(stderr, "bad replay file\n"); return 97; }
    harness_load(libdir, s.prop);
    Result *r = map_result();
    run_child(r, &s, s.prop, 0, 0, false, o["trace"] == "1", cpu);
    printf("{\"status\":%d,\"class\":\"%s\",\"msg\":\"%s\",\"hash\":\"%016" PRIx64 "\",\"events\":%" PRIu64 "}\n", r->status, jesc(r->cls).c_str(), jesc(r->msg).c_str(), r->hash, r->events);
    if (o.count("out")) { std::ofstream of(o["out"]); of << replay_text(r); }
    return 0;
  }
  if (pos[0] == "gen") {
    harness_load(libdir, o["prop"]);
    Spec s; harness_gen(o["prop"], run_seed(strtoull(o["seed"].c_str(), 0, 10), o["prop"], strtoull(o["index"].c_str(), 0, 10)), strtoull(o["index"].c_str(), 0, 10), o["tier"] == "thorough", s);
    fputs(spec_text(s).c_str(), stdout);
    return 0;
  }
  if (pos[0] == "one") {
    harness_load(libdir, o["prop"]);
    uint64_t seed = strtoull(o["seed"].c_str(), 0, 10), idx = strtoull(o["index"].c_str(), 0, 10);
    Result *r = map_result();
    run_child(r, nullptr, o["prop"], run_seed(seed, o["prop"], idx), idx, o["tier"] == "thorough", o["trace"] == "1", cpu);
    printf("{\"status\":%d,\"class\":\"%s\",\"msg\":\"%s\",\"hash\":\"%016" PRIx64 "\",\"events\":%" PRIu64 "}\n", r->status, jesc(r->cls).c_str(), jesc(r->msg).c_str(), r->hash, r->events);
    if (o.count("out")) { std::ofstream of(o["out"]); of << replay_text(r); }
    return 0;
  }
  if (pos[0] != "batch") return 97;
  std::string prop = o["prop"];
  uint64_t seed = strtoull(o["seed"].c_str(), 0, 10), from = strtoull(o["from"].c_str(), 0, 10), n = strtoull(o["n"].c_str(), 0, 10);
  int jobs = o.count("jobs") ? atoi(o["jobs"].c_str()) : 8;
  double tlimit = o.count("time") ? atof(o["time"].c_str()) : 0;
  bool thorough = o["tier"] == "thorough";
  int maxviol = o.count("maxviol") ? atoi(o["maxviol"].c_str()) : 1;
  double t0 = now();
  harness_load(libdir, prop);
  g_statebits = (uint8_t *)mmap(nullptr, sim::STATEBITS / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Rec *recs = (Rec *)mmap(nullptr, sizeof(Rec) * (n + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Agg *A = (Agg *)mmap(nullptr, sizeof(Agg), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<pid_t> kids;
  for (int j = 0; j < jobs; j++) {
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      Result *r = map_result();
      for (;;) {
        if (__atomic_load_n(&A->stop, __ATOMIC_SEQ_CST)) break;
        if (tlimit > 0 && now() - t0 > tlimit) break;
        uint64_t i = ADD(A->next, 1);
        if (i >= n) break;
        uint64_t idx = from + i;
        run_child(r, nullptr, prop, run_seed(seed, prop, idx), idx, thorough, false, cpu);
        recs[i].hash = r->hash; recs[i].events = r->events; recs[i].nontrivial = r->nontrivial;
        __atomic_store_n(&recs[i].status, (uint32_t)r->status, __ATOMIC_SEQ_CST);
        ADD(A->done, 1);
        ADD(A->events, r->events); ADD(A->switches, r->switches); ADD(A->forced, r->forced); ADD(A->progress, r->progress); ADD(A->sim_ns, r->sim_ns);
        ADD(A->procs, r->procs); ADD(A->threads, r->threads); ADD(A->syscalls, r->syscalls); ADD(A->kills, r->kills); ADD(A->nontrivial, r->nontrivial ? 1 : 0);
        for (int k = 0; k < sim::F_NKINDS; k++) { ADD(A->faults[k], r->faults[k]); if (r->faults[k]) ADD(A->runs_with_fault[k], 1); }
        for (int k = 0; k < 64; k++) if (r->probes[k]) ADD(A->probes[k], 1);
        if (r->status == 1) ADD(A->ok, 1);
        else {
          uint64_t c = r->status == 2 ? ADD(A->viol, 1) : ADD(A->err, 1);
          if (o.count("out")) {
            std::ofstream of(o["out"] + (r->status == 2 ? ".viol." : ".err.") + std::to_string(idx));
            of << replay_text(r);
            if (r->status != 2) of << "# " << r->msg << "\n# index " << idx << "\n";
          }
          if (r->status != 2 || c + 1 >= (uint64_t)maxviol) __atomic_store_n(&A->stop, 1, __ATOMIC_SEQ_CST);
        }
      }
      _exit(0);
    }
    kids.push_back(pid);
  }
  for (auto k : kids) { int st; waitpid(k, &st, 0); }
  std::set<uint64_t> hs, hnt;
  uint64_t batchhash = 0, maxev = 0;
  for (uint64_t i = 0; i < n; i++) if (recs[i].status) {
    hs.insert(recs[i].hash); if (recs[i].nontrivial) hnt.insert(recs[i].hash);
    batchhash ^= sim::mix64(recs[i].hash, i); if (recs[i].events > maxev) maxev = recs[i].events;
  }
  uint64_t bits = 0;
  for (uint64_t i = 0; i < sim::STATEBITS / 8; i++) bits += (uint64_t)__builtin_popcount(g_statebits[i]);
  printf("{\"runs\":%" PRIu64 ",\"ok\":%" PRIu64 ",\"violations\":%" PRIu64 ",\"errors\":%" PRIu64 ",\"events\":%" PRIu64 ",\"max_events\":%" PRIu64 ",\"switches\":%" PRIu64 ",\"sim_ns\":%" PRIu64 ",\"procs\":%" PRIu64 ",\"threads\":%" PRIu64 ",\"syscalls\":%" PRIu64 ",\"kills\":%" PRIu64 ",\"nontrivial\":%" PRIu64 ",\"distinct\":%zu,\"distinct_nontrivial\":%zu,\"states\":%" PRIu64 ",\"batchhash\":\"%016" PRIx64 "\",\"wall\":%.3f,",
         A->done, A->ok, A->viol, A->err, A->events, maxev, A->switches, A->sim_ns, A->procs, A->threads, A->syscalls, A->kills, A->nontrivial, hs.size(), hnt.size(), bits, batchhash, now() - t0);
  printf("\"faults\":{");
  for (int k = 0; k < sim::F_NKINDS; k++) printf("%s\"%s\":[%" PRIu64 ",%" PRIu64 "]", k ? "," : "", sim::fault_names[k], A->faults[k], A->runs_with_fault[k]);
  printf("},\"probes\":[");
  for (int k = 0; k < 64; k++) printf("%s%" PRIu64, k ? "," : "", A->probes[k]);
  printf("]}\n");
  return 0;
}
