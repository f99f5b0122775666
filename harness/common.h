// Run specifications, batches of runs, replay files.
#pragma once
#include "../sim/sim.h"
#include "glue.h"
#include <string>
#include <vector>
#include <map>

struct Job {                                    // one parse
  std::map<std::string, int64_t> p;             // parameters
  std::map<std::string, std::string> s;         // textual parameters (hex-encoded blobs, file names)
  std::vector<std::string> w;                   // workload lines
  int64_t get(const char *k, int64_t d = 0) const { auto it = p.find(k); return it == p.end() ? d : it->second; }
};
struct Spec {
  std::string prop, harness;
  std::map<std::string, int64_t> p;
  std::map<std::string, std::string> s;
  std::vector<Job> jobs;
  sim::SchedCfg sched;
  std::vector<std::string> expect;              // expect lines of a replay file
  int64_t get(const char *k, int64_t d = 0) const { auto it = p.find(k); return it == p.end() ? d : it->second; }
};
std::string spec_text(const Spec &);
bool parse_spec(const std::string &text, Spec &out);
std::string hexenc(const std::string &);
std::string hexdec(const std::string &);

// provided by each harness
extern const char *harness_name;
extern bool harness_baton;                 // simulated threads are OS threads that pass a baton
void harness_load(const std::string &libdir, const std::string &prop);   // before forking
void harness_gen(const std::string &prop, uint64_t seed, uint64_t index, bool thorough, Spec &out);
void harness_cleanup(int pid);                                              // in the parent, after child pid ended
void harness_exec(const Spec &);                                          // in the child; calls sim::run

// reporting: ends the run if the class matters for the property being checked, else returns
bool relevant(const std::string &prop, const char *cls);
extern std::string g_prop;
void report(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void gen_sched(sim::Rng &r, sim::SchedCfg &c, double fault_level);
