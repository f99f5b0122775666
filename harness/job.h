// One parse of a generated grammar: its input, what the reference parser makes of it, what its actions return.
#pragma once
#include "common.h"
#include "gram.h"
#include <unistd.h>
#include <cinttypes>
#include <cstdio>
#include <unordered_map>
using namespace sim;
enum { M_NONE = 0, M_TRUNC, M_BYTE, M_INSERT, M_DELETE, M_DUP, M_SWAP, M_RANDOM, M_EMPTY, M_NEAR };
static std::string gram_dir(int pid) { return "/tmp/centaurus-e2e." + std::to_string(pid); }
void harness_cleanup(int pid) {
  for (std::string d : {gram_dir(pid) + "/bad", gram_dir(pid)}) {
    for (const char *n : {"/g.cgr", "/inc.cgr", "/sub/inc.cgr", "/sub/mid.cgr"}) unlink((d + n).c_str());
    rmdir((d + "/sub").c_str()); rmdir(d.c_str());
  }
}
static gram::Grammar g_gr;
static std::string g_text, g_inc;
struct JobCtx {
  const Job *job; int index;
  std::string input;
  gram::Ref ref;
  std::unordered_map<uint64_t, int> by_key;
  struct St { bool called = false, done = false; uint64_t val = 0; };
  std::vector<St> st;
  std::vector<bool> attached;
  uint64_t calls = 0;
  const void *in_base = nullptr;
  void *counter = nullptr; int64_t counter_base = 0;
  int64_t banks, workers;
  bool completed = false, dry_parser = false;
};
static JobCtx *g_job;
static uint64_t key(int id, int64_t s, int64_t e) { return mix64(mix64((uint64_t)s, (uint64_t)e), (uint64_t)id); }

static void make_input(JobCtx &J) {
  const Job &j = *J.job;
  Rng r((uint64_t)j.get("dseed"));
  Rng m((uint64_t)j.get("mseed"));
  std::string in = g_gr.sentence(r, std::max<int64_t>(1, j.get("dsize")), j.get("mut") == M_NEAR ? &m : nullptr);
  auto rnd = [&]() -> char { for (;;) { int c = m.chance(0.7) && !in.empty() ? (unsigned char)in[m.below(in.size())] : m.chance(0.8) ? (int)m.range(32, 126) : (int)m.below(255); if (c != 255) return (char)c; } };
  size_t n = in.size();
  switch (j.get("mut")) {
    case M_TRUNC: in.resize(m.below(n + 1)); break;
    case M_BYTE: if (n) { int k = m.chance(0.7) ? 1 : (int)m.range(2, 4); for (int i = 0; i < k; i++) in[m.below(n)] = rnd(); } break;
    case M_INSERT: in.insert(m.below(n + 1), 1, rnd()); break;
    case M_DELETE: if (n) in.erase(m.below(n), 1 + m.below(3)); break;
    case M_DUP: { size_t a = m.below(n + 1), l = m.below(n - a + 1); in.insert(m.below(n + 1), in.substr(a, l)); break; }
    case M_SWAP: if (n > 1) std::swap(in[m.below(n)], in[m.below(n)]); break;
    case M_RANDOM: { in.clear(); int k = (int)m.logrange(1, 60); for (int i = 0; i < k; i++) in += (char)m.range(1, 254); break; }
    case M_EMPTY: in.clear(); break;
  }
  for (int64_t i = 0; i < j.get("tail"); i++) in += m.chance(0.3) ? ' ' : (char)m.below(255);
  if (j.get("pad") > 0) {   // white space in front puts the end of the file where we want it
    int64_t pg = j.get("pad"), want = ((int64_t)in.size() / pg + 1) * pg + j.get("edge");
    if (want <= (int64_t)in.size()) want += pg;
    if (want > (int64_t)in.size()) in.insert(0, std::string((size_t)(want - (int64_t)in.size()), " \n\t\r"[m.below(4)]));
  }
  J.input = in;
}
static void init_job(JobCtx &J, const Job &j, int index) {
  J.job = &j; J.index = index;
  make_input(J);
  J.ref = g_gr.parse(J.input);
  J.workers = std::max<int64_t>(1, j.get("workers", 1)); J.banks = j.get("banks") > 0 ? j.get("banks") : 2 * J.workers;
  J.workers = std::min(J.workers, J.banks);
  J.st.resize(J.ref.nodes.size());
  Rng a((uint64_t)j.get("aseed"));
  J.attached.assign(g_gr.rules.size(), true);
  bool ctx = true;
  for (size_t i = 0; i < J.attached.size(); i++) if (ctx && (int64_t)a.below(100) < j.get("adrop")) J.attached[i] = false;
  int valmode = (int)a.below(3); uint64_t c = 0;
  for (size_t i = 0; i < J.ref.nodes.size(); i++) {
    auto &n = J.ref.nodes[i];
    if (n.end >= 0) J.by_key[key(n.id, n.start, n.end)] = (int)i;
    bool null = (int64_t)a.below(100) < j.get("anull");
    uint64_t v = valmode == 0 ? ++c : valmode == 1 ? (a.next() | 1) : (a.chance(0.5) ? ~0ull - a.below(4) : (1ull << 63) | a.below(1000));
    J.st[i].val = null ? 0 : v;
  }
}
static std::string clip(const std::string &s) {
  std::string o; for (unsigned char c : s) { if (o.size() > 60) { o += "..."; break; } if (c >= 32 && c < 127) o += (char)c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } }
  return o;
}
static const char *rule_name(int rule) { return rule >= 0 && rule < (int)g_gr.rules.size() ? g_gr.rules[(size_t)rule].name.c_str() : "?"; }

