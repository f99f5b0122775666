// Simulated CPU for generated code.  The assembler shim records instructions; entering a generated
// function interprets them.  Loads and stores outside the simulated stack and the code's own
// constants go through the simulator (bounds, races, scheduling points); calls to native code check
// the System V ABI (alignment) and clobber every caller-saved register; returning to native code
// checks the callee-saved ones.
#include "sim_int.h"
#include "asmjit/asmjit.h"
#include <cstring>
#include <memory>
#include <sys/mman.h>

using namespace sim;
namespace {
struct Ins { uint8_t op, cc; JitOperand a, b, c; };
struct LabelInfo { int64_t pos = -1; int64_t data = -1; };
struct Code {
  std::vector<Ins> ins;
  std::vector<LabelInfo> labels;
  std::vector<uint8_t> data;      // constant pools (16-byte aligned relative to base)
  uint8_t *base = nullptr;
  uint8_t *stubs = nullptr; size_t nstubs = 0;
};
struct Rec { Code *c; int label; };   // entry record (label -1: start)
static const uint64_t RETMAGIC = 0x5ADD000000000000ull, EXITMAGIC = 0x5EADC0DE5EADC0DEull;
static const size_t STACK = 64u << 20;

[[noreturn]] void bad(const char *cls, const char *fmt, ...) {
  char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (!g_cur) { fprintf(stderr, "generated code outside the simulation: %s: %s\n", cls, b); abort(); }
  violation(cls, "%s", b);
}
struct Cpu {
  Code *c;
  uint64_t r[16];
  uint8_t x[16][16];
  bool cf = false, zf = false, sf = false, of = false, pf = false;
  uint8_t *stk; uint64_t lo, hi;
  int64_t pc = 0;

  bool cond(int cc) const {
    bool v;
    switch (cc >> 1) {
      case 0: v = of; break; case 1: v = cf; break; case 2: v = zf; break; case 3: v = cf || zf; break;
      case 4: v = sf; break; case 5: v = pf; break; case 6: v = sf != of; break; default: v = zf || sf != of; break;
    }
    return (cc & 1) ? !v : v;
  }
  void szp(uint64_t v) { zf = v == 0; sf = (int64_t)v < 0; pf = !(__builtin_popcount((unsigned)(v & 255)) & 1); }
  uint64_t addr(const JitOperand &o, size_t n, bool w) {
    uint64_t a;
    if (o.kind == JK_MEMLABEL) {
      const LabelInfo &l = c->labels[(size_t)o.reg];
      if (l.data < 0) bad("crash:jit", "generated code refers to a label that holds no data");
      a = (uint64_t)c->base + (uint64_t)l.data + (uint64_t)o.imm;
      if (l.data + o.imm + (int64_t)n > (int64_t)c->data.size()) bad("crash:jit", "generated code reads past its constants");
      return a;
    }
    a = r[o.reg] + (uint64_t)o.imm;
    if (a >= lo && a + n <= hi) {
      if (a < r[4] && !w) bad("crash:jit", "generated code reads below its stack pointer");
      return a;
    }
    if (a >= (uint64_t)c->base && a + n <= (uint64_t)c->base + c->data.size()) { if (w) bad("crash:jit", "generated code writes to its constants"); return a; }
    if (g_cur) { if (w) mem_write((void *)a, n, "generated code"); else mem_check((void *)a, n, false, "generated code"); }
    return a;
  }
  uint64_t get(const JitOperand &o, int dsize = 8) {
    switch (o.kind) {
      case JK_GP: return r[o.reg];
      case JK_IMM: return (uint64_t)o.imm;
      case JK_MEM: case JK_MEMLABEL: { int n = o.size ? o.size : dsize; uint64_t v = 0; uint64_t a = addr(o, (size_t)n, false); memcpy(&v, (void *)a, (size_t)n); return v; }
      default: bad("crash:jit", "operand kind %d", o.kind);
    }
  }
  void set(const JitOperand &o, uint64_t v) {
    if (o.kind == JK_GP) { r[o.reg] = v; return; }
    if (o.kind == JK_MEM) { int n = o.size ? o.size : 8; uint64_t a = addr(o, (size_t)n, true); memcpy((void *)a, &v, (size_t)n); return; }
    bad("crash:jit", "destination kind %d", o.kind);
  }
  void getx(const JitOperand &o, uint8_t *d, bool aligned) {
    if (o.kind == JK_XMM) { memcpy(d, x[o.reg], 16); return; }
    uint64_t a = addr(o, 16, false);
    if (aligned && ((a - (o.kind == JK_MEMLABEL ? (uint64_t)c->base : 0)) & 15)) bad("crash:jit", "unaligned 16-byte load");
    memcpy(d, (void *)a, 16);
  }
  void push(uint64_t v) {
    r[4] -= 8;
    if (r[4] < lo || r[4] + 8 > hi) bad("crash:stack", "generated code ran off its stack");
    memcpy((void *)r[4], &v, 8);
  }
  uint64_t pop() {
    if (r[4] < lo || r[4] + 8 > hi) bad("crash:stack", "generated code ran off its stack");
    uint64_t v; memcpy(&v, (void *)r[4], 8); r[4] += 8; return v;
  }
  int64_t target(const JitOperand &o) {
    int64_t p = c->labels[(size_t)o.reg].pos;
    if (p < 0) bad("crash:jit", "jump to a label that was never placed");
    return p;
  }
  uint64_t add(uint64_t a, uint64_t b, bool cin) {
    uint64_t v = a + b + cin; cf = cin ? v <= a : v < a; of = (int64_t)((a ^ v) & (b ^ v)) < 0; szp(v); return v;
  }
  uint64_t sub(uint64_t a, uint64_t b, bool cin) {
    uint64_t v = a - b - cin; cf = cin ? a <= b : a < b; of = (int64_t)((a ^ b) & (a ^ v)) < 0; szp(v); return v;
  }
  void pcmpistri(const uint8_t *p, const uint8_t *s, int imm) {
    bool wide = imm & 1;
    if (imm & 2) bad("crash:jit", "pcmpistri mode %d not simulated", imm);
    int n = wide ? 8 : 16;
    auto at = [&](const uint8_t *q, int i) -> unsigned { return wide ? (unsigned)(q[2 * i] | q[2 * i + 1] << 8) : q[i]; };
    int lp = 0, ls = 0;
    while (lp < n && at(p, lp)) lp++;
    while (ls < n && at(s, ls)) ls++;
    unsigned res1 = 0;
    for (int j = 0; j < n; j++) {
      bool hit = false;
      switch ((imm >> 2) & 3) {
        case 0: if (j < ls) for (int i = 0; i < lp; i++) hit |= at(p, i) == at(s, j); break;
        case 1: if (j < ls) for (int i = 0; i + 1 < lp; i += 2) hit |= at(p, i) <= at(s, j) && at(s, j) <= at(p, i + 1); break;
        case 2: hit = j >= lp && j >= ls ? true : j >= lp || j >= ls ? false : at(p, j) == at(s, j); break;
        default: bad("crash:jit", "pcmpistri mode %d not simulated", imm);
      }
      if (hit) res1 |= 1u << j;
    }
    unsigned res2 = res1, full = wide ? 0xFFu : 0xFFFFu;
    switch ((imm >> 4) & 3) { case 1: res2 = ~res1 & full; break; case 3: for (int j = 0; j < ls; j++) res2 ^= 1u << j; break; default: break; }
    int idx = n;
    if (imm & 0x40) { for (int j = n - 1; j >= 0; j--) if (res2 >> j & 1) { idx = j; break; } }
    else for (int j = 0; j < n; j++) if (res2 >> j & 1) { idx = j; break; }
    r[1] = (uint64_t)idx;
    cf = res2 != 0; zf = ls < n; sf = lp < n; of = res2 & 1; pf = false;
  }
  void native(uint64_t fn) {
    if ((r[4] & 15) != 0) bad("crash:abi", "generated code calls the library with a misaligned stack");
    uint64_t sp = r[4];
    uint64_t rv = ((uint64_t(*)(uint64_t, uint64_t, uint64_t, uint64_t))fn)(r[7], r[6], r[2], r[1]);
    // caller-saved registers are the callee's to change
    static const int vol[] = {1, 2, 6, 7, 8, 9, 10, 11};
    for (int i : vol) r[i] = 0xBADBADBAD0000000ull + (uint64_t)i;
    memset(x, 0xA5, sizeof x);
    cf = zf = sf = of = pf = true;
    r[0] = rv; r[4] = sp;
  }
  uint64_t run();
};

uint64_t Cpu::run() {
  uint64_t quiet = 0;
  for (;;) {
    if (pc < 0 || pc >= (int64_t)c->ins.size()) bad("crash:jit", "execution left the generated code");
    const Ins &i = c->ins[(size_t)pc++];
    if (++quiet > 400000000) bad("hang:jit", "generated code runs without making progress");
    switch (i.op) {
      case J_ADD: set(i.a, add(get(i.a), get(i.b), false)); break;
      case J_ADC: set(i.a, add(get(i.a), get(i.b), cf)); break;
      case J_SUB: set(i.a, sub(get(i.a), get(i.b), false)); break;
      case J_SBB: set(i.a, sub(get(i.a), get(i.b), cf)); break;
      case J_CMP: sub(get(i.a), get(i.b), false); break;
      case J_AND: { uint64_t v = get(i.a) & get(i.b); cf = of = false; szp(v); set(i.a, v); break; }
      case J_OR: { uint64_t v = get(i.a) | get(i.b); cf = of = false; szp(v); set(i.a, v); break; }
      case J_XOR: { uint64_t v = get(i.a) ^ get(i.b); cf = of = false; szp(v); set(i.a, v); break; }
      case J_TEST: { uint64_t v = get(i.a) & get(i.b); cf = of = false; szp(v); break; }
      case J_MOV: set(i.a, get(i.b)); break;
      case J_LEA: r[i.a.reg] = r[i.b.reg] + (uint64_t)i.b.imm; break;
      case J_XCHG: { uint64_t u = get(i.a), v = get(i.b); set(i.a, v); set(i.b, u); break; }
      case J_INC: { bool k = cf; set(i.a, add(get(i.a), 1, false)); cf = k; break; }
      case J_DEC: { bool k = cf; set(i.a, sub(get(i.a), 1, false)); cf = k; break; }
      case J_NEG: set(i.a, sub(0, get(i.a), false)); break;
      case J_NOT: set(i.a, ~get(i.a)); break;
      case J_SHL: case J_SAL: { unsigned n = (unsigned)get(i.b) & 63; uint64_t u = get(i.a), v = u << n; if (n) { cf = u >> (64 - n) & 1; of = ((int64_t)v < 0) != cf; szp(v); } set(i.a, v); break; }
      case J_SHR: { unsigned n = (unsigned)get(i.b) & 63; uint64_t u = get(i.a), v = u >> n; if (n) { cf = u >> (n - 1) & 1; of = (int64_t)u < 0; szp(v); } set(i.a, v); break; }
      case J_SAR: { unsigned n = (unsigned)get(i.b) & 63; int64_t u = (int64_t)get(i.a), v = u >> n; if (n) { cf = u >> (n - 1) & 1; of = false; szp((uint64_t)v); } set(i.a, (uint64_t)v); break; }
      case J_PUSH: push(get(i.a)); break;
      case J_POP: set(i.a, pop()); break;
      case J_CALL:
        if (i.a.kind == JK_LABEL) { push(RETMAGIC | (uint64_t)pc); pc = target(i.a); }
        else { native(get(i.a)); quiet = 0; }
        break;
      case J_RET: {
        uint64_t v = pop();
        if (v == EXITMAGIC) {
          if (r[4] != hi - 64) bad("crash:abi", "generated code returned with its stack pointer off by %lld", (long long)(r[4] - (hi - 64)));
          return r[0];
        }
        if ((v & 0xFFFF000000000000ull) != RETMAGIC) bad("crash:jit", "generated code returned to something that is not a return address");
        pc = (int64_t)(v & 0xFFFFFFFFFFFFull);
        break;
      }
      case J_JMP: pc = target(i.a); break;
      case J_JCC: if (cond(i.cc)) pc = target(i.a); break;
      case J_CMOVCC: { uint64_t v = get(i.b); if (cond(i.cc)) set(i.a, v); break; }
      case J_MOVZX: { JitOperand o = i.b; if (!o.size || o.size > 2) o.size = 1; set(i.a, get(o)); break; }
      case J_MOVSX: { JitOperand o = i.b; if (!o.size || o.size > 2) o.size = 1; uint64_t v = get(o); set(i.a, o.size == 1 ? (uint64_t)(int64_t)(int8_t)v : (uint64_t)(int64_t)(int16_t)v); break; }
      case J_MOVDQA: case J_MOVDQU: {
        uint8_t t[16]; getx(i.b, t, i.op == J_MOVDQA);
        if (i.a.kind == JK_XMM) memcpy(x[i.a.reg], t, 16);
        else { uint64_t a = addr(i.a, 16, true); memcpy((void *)a, t, 16); }
        break;
      }
      case J_PXOR: { uint8_t t[16]; getx(i.b, t, true); for (int k = 0; k < 16; k++) x[i.a.reg][k] ^= t[k]; break; }
      case J_MOVNTI: { uint64_t v = get(i.b); set(i.a, v); quiet = 0; break; }
      case J_PCMPISTRI: { uint8_t p[16], s[16]; getx(i.a, p, false); getx(i.b, s, false); pcmpistri(p, s, (int)i.c.imm); break; }
      case J_SFENCE: case J_NOP: break;
      default: bad("crash:jit", "instruction %d", i.op);
    }
  }
}

extern "C" uint64_t jit_enter(uint64_t a0, uint64_t a1, uint64_t a2, uint64_t a3, Rec *rec) {
  Code *c = rec->c;
  Cpu u;
  u.c = c;
  memset(u.x, 0x5A, sizeof u.x);
  u.stk = (uint8_t *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (u.stk == MAP_FAILED) harness_error("no memory for the simulated stack");
  u.lo = (uint64_t)u.stk; u.hi = u.lo + STACK;
  for (int i = 0; i < 16; i++) u.r[i] = 0xC0FFEE0000000000ull + (uint64_t)i;
  u.r[7] = a0; u.r[6] = a1; u.r[2] = a2; u.r[1] = a3;
  u.r[4] = u.hi - 64;
  u.push(EXITMAGIC);                         // rsp = 8 mod 16, as after a call
  uint64_t keep[16]; memcpy(keep, u.r, sizeof keep);
  u.pc = rec->label < 0 ? 0 : c->labels[(size_t)rec->label].pos;
  uint64_t v = u.run();
  static const int callee[] = {3, 5, 12, 13, 14, 15};
  for (int i : callee) if (u.r[i] != keep[i]) bad("crash:abi", "generated code does not preserve register %d", i);
  munmap(u.stk, STACK);
  return v;
}
}  // namespace

extern "C" {
void *jit_code_new() { return new Code; }
void jit_code_delete(void *p) {
  Code *c = (Code *)p;
  if (c->stubs) munmap(c->stubs, c->nstubs * 32);
  delete c;
}
int jit_label_new(void *p) { Code *c = (Code *)p; c->labels.emplace_back(); return (int)c->labels.size() - 1; }
void jit_label_bind(void *p, int l) { Code *c = (Code *)p; c->labels[(size_t)l].pos = (int64_t)c->ins.size(); }
void jit_label_data(void *p, int l, const void *d, size_t n) {
  Code *c = (Code *)p;
  while (c->data.size() & 15) c->data.push_back(0);
  c->labels[(size_t)l].data = (int64_t)c->data.size();
  if (n) c->data.insert(c->data.end(), (const uint8_t *)d, (const uint8_t *)d + n);
}
void jit_emit(void *p, int op, int cc, const JitOperand *a, const JitOperand *b, const JitOperand *k) {
  Code *c = (Code *)p;
  JitOperand none = {JK_NONE, 0, 0, 0};
  c->ins.push_back(Ins{(uint8_t)op, (uint8_t)cc, a ? *a : none, b ? *b : none, k ? *k : none});
}
void *jit_entry(void *p) {
  Code *c = (Code *)p;
  c->base = c->data.data();
  if (!c->stubs) {
    c->nstubs = c->labels.size() + 1;
    c->stubs = (uint8_t *)mmap(nullptr, c->nstubs * 32, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (c->stubs == MAP_FAILED) { fprintf(stderr, "mmap of code failed\n"); abort(); }
    for (size_t i = 0; i < c->nstubs; i++) {
      uint8_t *q = c->stubs + i * 32;
      Rec *r = new Rec{c, (int)i - 1};
      void *fn = (void *)&jit_enter;
      *q++ = 0x49; *q++ = 0xB8; memcpy(q, &r, 8); q += 8;    // mov r8, rec
      *q++ = 0x49; *q++ = 0xBB; memcpy(q, &fn, 8); q += 8;   // mov r11, jit_enter
      *q++ = 0x41; *q++ = 0xFF; *q++ = 0xE3;                 // jmp r11
    }
  }
  return c->stubs;
}
size_t jit_label_offset(void *, int l) { return 32 * (size_t)(l + 1); }
}
