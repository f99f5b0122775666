// Loading grammars inside the simulation: damaged, unreadable or missing files, failing and short reads,
// failing allocations, several threads at once.  Included by e2e.cpp.
#pragma once
struct Loaded { void *ctx = nullptr, *gram = nullptr, *parser = nullptr; int api = 0; char err[300]; bool ok() const { return ctx || parser; } };

static std::string dir_of(int i) { return "/sim/d" + std::to_string(i) + "/"; }
static void put_grammar(int dir, const std::string &t, const std::string &inc) {
  for (const char *n : {"inc.cgr", "sub/inc.cgr", "sub/mid.cgr"}) remove_file(dir_of(dir) + n);
  for (auto &f : g_gr.files(dir_of(dir), t, inc)) put_file(f.name, f.text);
}

// damages the files of directory 0 and says what a loader may make of them
static Expect damage_files(const Spec &s) {
  std::vector<gram::Grammar::File> fs;
  Expect x = damage((int)s.get("damage"), (uint64_t)s.get("damseed"), dir_of(0), fs);
  for (const char *n : {"g.cgr", "inc.cgr", "sub/inc.cgr", "sub/mid.cgr"}) remove_file(dir_of(0) + n);
  for (auto &f : fs) put_file(f.name, f.text);
  return x;
}

static Loaded load(int api, int dir) {
  Loaded l; l.api = api; l.err[0] = 0;
  std::string path = dir_of(dir) + "g.cgr";
  if (api == API_CONTEXT) { l.ctx = E->ctx_new(path.c_str(), l.err, sizeof l.err); return l; }
  l.gram = E->gram_new(path.c_str(), api == API_CTOR ? 2 : api == API_OPTIMIZED ? 1 : 0, l.err, sizeof l.err);
  if (!l.gram) return l;
  l.parser = E->parser_new(l.gram, api == API_DRY, l.err, sizeof l.err);
  if (!l.parser) { E->gram_delete(l.gram); l.gram = nullptr; }
  return l;
}
static void unload(Loaded &l) {
  if (l.ctx) E->ctx_delete(l.ctx);
  if (l.parser) E->parser_delete(l.parser);
  if (l.gram) E->gram_delete(l.gram);
  l.ctx = l.gram = l.parser = nullptr;
}
static std::unordered_map<std::string, int> g_ids;
static std::string g_idclash;
static void on_id(const wchar_t *w, int id) { std::string n; while (*w) n += (char)*w++; auto it = g_ids.emplace(n, id); if (it.first->second != id) g_idclash = "rule " + n + " is listed with two ids"; }

// what has been loaded must be the grammar (or the complete statements of one that ends early)
static void verify(Loaded &l, const Spec &s, const Expect &x, const char *when) {
  if (l.ctx) {
    if (!x.whole) { // rules that are not there cannot be attached to
      char err[200];
      for (size_t i = 0; i < g_gr.rules.size(); i++) { std::wstring w(g_gr.rules[i].name.begin(), g_gr.rules[i].name.end()); bool ok = E->ctx_attach(l.ctx, w.c_str(), (int)i, err, sizeof err); if (ok && !x.rules[i]) report("load:partial", "%s: rule %s is there although its definition was cut off", when, g_gr.rules[i].name.c_str()); if (!ok && x.rules[i]) report("load:partial", "%s: rule %s is missing", when, g_gr.rules[i].name.c_str()); }
    }
  } else {
    g_ids.clear(); g_mid.assign(g_gr.rules.size(), -1);
    g_idclash.clear(); E->gram_ids(l.gram, on_id);
    if (!g_idclash.empty()) { report("setup:grammar", "%s: %s", when, g_idclash.c_str()); return; }
    for (size_t i = 0; i < g_gr.rules.size(); i++) {
      auto it = g_ids.find(g_gr.rules[i].name);
      if ((it != g_ids.end()) != x.rules[i]) { report("load:partial", "%s: a parser was built, but rule %s %s", when, g_gr.rules[i].name.c_str(), x.rules[i] ? "is missing" : "is there although its definition was cut off"); return; }
      if (it != g_ids.end()) g_mid[i] = it->second;
    }
  }
  int64_t bw = std::max<int64_t>(1, s.get("bank_words", 4));
  char err[300];
  for (size_t k = 0; k < s.jobs.size(); k++) {
    JobCtx J; init_job(J, s.jobs[k], (int)k);
    put_file(file_of(J), J.input);
    J.attached = x.rules;
    if (l.ctx) {
      g_ctx = l.ctx; g_job = &J;
      attach_all(J);
      E->set_action(on_action, nullptr);
      if (!E->ctx_parse(g_ctx, file_of(J).c_str(), (int)J.workers, err, sizeof err)) report("setup:error", "%s: parse failed although nothing went wrong: %s", when, err);
      if (!J.ref.accept && !J.calls) continue;
      check_end(J);
    } else {
      g_parser = l.parser;
      J.dry_parser = l.api == API_DRY;
      run_stages(J, bw, true, nullptr);
    }
    if (J.ref.stream.size() > 2) g_res->nontrivial = 1;
  }
}

static int load_main(const Spec &s) {
  int nt = (int)std::max<int64_t>(1, std::min<int64_t>(s.get("threads", 1), 4));
  int kind = (int)s.get("damage");
  Rng r((uint64_t)s.get("apiseed"));
  auto interrupted = [] { return g_res->faults[F_EINTR] > 0; };
  int api[4]; for (auto &a : api) a = (int)r.below(API_N);
  Proc *p = cur_proc();
  Expect good; good.rules.assign(g_gr.rules.size(), true); good.must_load = true;
  // the first load pays for what is set up once
  for (int i = 0; i < nt; i++) put_grammar(i, g_text, g_inc);
  // grammars can be arbitrarily hard: the ones that take too long when nothing is wrong show nothing here
  work_limit(8000000, nullptr);
  uint64_t w0 = work_done();
  Loaded l0 = load(api[0], 0);
  uint64_t cost = work_done() - w0;
  work_limit(~0ull, nullptr);
  if (!l0.ok() && interrupted()) return 0;
  if (!l0.ok()) { report("load:refused", "a correct grammar is refused: %s", l0.err); return 0; }
  verify(l0, s, good, "first load");
  unload(l0);
  Ledger b = ledger();
  Expect x = damage_files(s);
  for (size_t i = 0; i < s.jobs.size(); i++) for (auto &w : s.jobs[i].w) {
    std::istringstream in(w); std::string k; in >> k;
    if (k == "F") {
      OsFaultPlan f; in >> f.name >> f.nth >> f.err;
      int n = os_calls(p, f.name); f.nth += f.nth < 0 ? -n : n;                 // counted from here
      set_os_fault_plan(p, {f});
    } else if (k == "N") { uint64_t n, more; in >> n >> more; fail_alloc(p, n, more, E->bad_alloc); }
  }
  size_t fired0 = os_faults_fired().size();
  Loaded l[4];
  work_limit((cost * 150 + (kind == D_MANY ? 2000000000ull : 10000000)) * (uint64_t)nt, "hang:work");
  {
    std::vector<Fiber *> th;
    for (int i = 1; i < nt; i++) th.push_back(spawn_thread("loader", [&, i]() { l[i] = load(api[i], i); }));
    l[0] = load(api[0], 0);
    for (auto t : th) join_thread(t);
  }
  bool fired = os_faults_fired().size() > fired0, nomem = alloc_failed();
  work_limit(~0ull, nullptr);
  fail_alloc(p, 0, 0, nullptr); set_os_fault_plan(p, {});
  char when[200]; int refused = 0;
  for (int i = 0; i < nt; i++) {
    bool mine = i == 0 || kind == D_READ || kind == D_OPEN || kind == D_NOMEM;      // affected by what was injected?
    Expect e = mine ? x : good;
    if ((fired || nomem) && mine) { e.must_load = false; if (fired && nt == 1) e.must_fail = true; }
    if (interrupted()) e.must_load = false;
    snprintf(when, sizeof when, "loading with %s (thread %d of %d)", damage_names[kind], i + 1, nt);
    trace("%s: %s%s", when, l[i].ok() ? "loaded" : "refused: ", l[i].err);
    if (!l[i].ok()) {
      refused++;
      if (e.must_load) report("load:refused", "%s: refused although nothing is wrong: %s", when, l[i].err);
      continue;
    }
    if (e.must_fail) report("load:accepted", "%s: a parser was built without complaint", when);
    verify(l[i], s, e, when);
    unload(l[i]);
  }
  if (fired && !refused) report("load:accepted", "loading with %s: no load reported it", damage_names[kind]);
  if (refused) { probe(52); g_res->nontrivial = 1; }
  check_ledger(b, refused ? "after a refused load" : "after loading and unloading");
  put_grammar(0, g_text, g_inc);
  Loaded again = load(api[0], 0);
  if (!again.ok()) { if (!interrupted()) report("load:refused", "the repaired grammar is refused: %s", again.err); return 0; }
  verify(again, s, good, "loading again after the cause is gone");
  unload(again);
  check_ledger(b, "after loading again and unloading");
  return 0;
}
