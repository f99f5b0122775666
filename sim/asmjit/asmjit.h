// Stand-in for the asmjit library (absent from this tree): the assembler interface used by
// Centaurus, recording instructions for the simulated CPU in sim/jit.cpp instead of emitting
// machine code.
#pragma once
#include <cstddef>
#include <cstdint>
#include <type_traits>

struct JitOperand { int kind; int reg; int64_t imm; int size; };   // see JK_*
enum { JK_NONE = 0, JK_GP, JK_XMM, JK_IMM, JK_MEM, JK_MEMLABEL, JK_LABEL };
enum JitOp {
  J_ADD = 1, J_ADC, J_SBB, J_AND, J_OR, J_XOR, J_SUB, J_CMP, J_TEST, J_MOV, J_LEA, J_XCHG, J_INC, J_DEC, J_NEG, J_NOT, J_SHL, J_SAL, J_SHR, J_SAR,
  J_PUSH, J_POP, J_CALL, J_RET, J_JMP, J_JCC, J_CMOVCC, J_MOVZX, J_MOVSX, J_MOVDQA, J_MOVDQU, J_MOVNTI, J_PCMPISTRI, J_PXOR, J_SFENCE, J_NOP
};
enum JitCond { C_O = 0, C_NO, C_B, C_AE, C_E, C_NE, C_BE, C_A, C_S, C_NS, C_P, C_NP, C_L, C_GE, C_LE, C_G };
extern "C" {
void *jit_code_new();
void jit_code_delete(void *);
int jit_label_new(void *);
void jit_label_bind(void *, int);
void jit_label_data(void *, int label, const void *data, size_t n);
void jit_emit(void *, int op, int cc, const JitOperand *a, const JitOperand *b, const JitOperand *c);
void *jit_entry(void *);
size_t jit_label_offset(void *, int);
}

namespace asmjit {
typedef uint32_t Error;
struct Imm { int64_t v; template <typename T> Imm(T x) : v((int64_t)x) {} };
struct X86Gp { int id; };
struct X86Xmm { int id; };
typedef X86Gp X86Reg;
struct Label { int id; Label() : id(-1) {} explicit Label(int i) : id(i) {} };
struct X86Mem {
  int kind, base; int64_t disp; int size;
  X86Mem(X86Gp b, int64_t d, int s = 0) : kind(JK_MEM), base(b.id), disp(d), size(s) {}
  X86Mem(const Label &l, int64_t d, int s = 0) : kind(JK_MEMLABEL), base(l.id), disp(d), size(s) {}
};
namespace x86 {
#define R(n, i) static const X86Gp n = {i};
R(rax, 0) R(rcx, 1) R(rdx, 2) R(rbx, 3) R(rsp, 4) R(rbp, 5) R(rsi, 6) R(rdi, 7)
R(r8, 8) R(r9, 9) R(r10, 10) R(r11, 11) R(r12, 12) R(r13, 13) R(r14, 14) R(r15, 15)
#undef R
#define X(i) static const X86Xmm xmm##i = {i};
X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15)
#undef X
inline X86Mem byte_ptr(X86Gp r, int64_t d = 0) { return X86Mem(r, d, 1); }
inline X86Mem word_ptr(X86Gp r, int64_t d = 0) { return X86Mem(r, d, 2); }
inline X86Mem dword_ptr(X86Gp r, int64_t d = 0) { return X86Mem(r, d, 4); }
inline X86Mem qword_ptr(X86Gp r, int64_t d = 0) { return X86Mem(r, d, 8); }
inline X86Mem ptr(X86Gp r, int64_t d = 0) { return X86Mem(r, d, 0); }
}
union Data128 { uint8_t ub[16]; int8_t sb[16]; uint16_t uw[8]; int16_t sw[8]; uint32_t ud[4]; uint64_t uq[2]; };
struct Zone { explicit Zone(size_t) {} };
class ConstPool {
  uint8_t *m_data; size_t m_n, m_cap;
  ConstPool(const ConstPool &); void operator=(const ConstPool &);
public:
  explicit ConstPool(Zone *) : m_data(nullptr), m_n(0), m_cap(0) {}
  ~ConstPool() { delete[] m_data; }
  Error add(const void *p, size_t n, size_t &off) {
    const uint8_t *s = (const uint8_t *)p;
    for (size_t o = 0; o + n <= m_n; o += n) {   // equal constants are shared
      size_t k = 0; while (k < n && m_data[o + k] == s[k]) k++;
      if (k == n) { off = o; return 0; }
    }
    if (m_n + n > m_cap) { size_t c = m_cap ? m_cap * 2 : 256; uint8_t *d = new uint8_t[c]; for (size_t i = 0; i < m_n; i++) d[i] = m_data[i]; delete[] m_data; m_data = d; m_cap = c; }
    for (size_t i = 0; i < n; i++) m_data[m_n + i] = s[i];
    off = m_n; m_n += n;
    return 0;
  }
  const uint8_t *data() const { return m_data; }
  size_t getSize() const { return m_n; }
};
struct Logger {};
struct StringLogger : Logger { const char *getString() const { return ""; } };
struct FileLogger : Logger { explicit FileLogger(void * = nullptr) {} };
struct CodeEmitter {};
struct ErrorHandler { virtual ~ErrorHandler() {} virtual bool handleError(Error, const char *, CodeEmitter *) { return false; } };
struct CodeInfo {};
class CodeHolder {
  CodeHolder(const CodeHolder &); void operator=(const CodeHolder &);
public:
  void *h;
  CodeHolder() : h(nullptr) {}
  ~CodeHolder() { if (h) jit_code_delete(h); }
  Error init(const CodeInfo &) { if (h) jit_code_delete(h); h = jit_code_new(); return 0; }
  void setLogger(Logger *) {}
  void setErrorHandler(ErrorHandler *) {}
  size_t getLabelOffset(const Label &l) const { return jit_label_offset(h, l.id); }
};
class JitRuntime {
public:
  CodeInfo getCodeInfo() const { return CodeInfo(); }
  template <typename F> Error add(F *dst, CodeHolder *c) { *dst = (F)jit_entry(c->h); return 0; }
  template <typename F> Error release(F) { return 0; }
};
class X86Assembler {
  CodeHolder *c;
  static JitOperand o(X86Gp r) { return {JK_GP, r.id, 0, 8}; }
  static JitOperand o(X86Xmm r) { return {JK_XMM, r.id, 0, 16}; }
  static JitOperand o(const X86Mem &m) { return {m.kind, m.base, m.disp, m.size}; }
  static JitOperand o(const Label &l) { return {JK_LABEL, l.id, 0, 8}; }
  static JitOperand o(const Imm &i) { return {JK_IMM, 0, i.v, 8}; }
  template <typename T> static typename std::enable_if<std::is_integral<T>::value, JitOperand>::type o(T v) { return {JK_IMM, 0, (int64_t)v, 8}; }
  void e(int op, int cc = 0) { jit_emit(c->h, op, cc, nullptr, nullptr, nullptr); }
  template <typename A> void e1(int op, int cc, const A &a) { JitOperand x = o(a); jit_emit(c->h, op, cc, &x, nullptr, nullptr); }
  template <typename A, typename B> void e2(int op, int cc, const A &a, const B &b) { JitOperand x = o(a), y = o(b); jit_emit(c->h, op, cc, &x, &y, nullptr); }
  template <typename A, typename B, typename D> void e3(int op, const A &a, const B &b, const D &d) { JitOperand x = o(a), y = o(b), z = o(d); jit_emit(c->h, op, 0, &x, &y, &z); }
public:
  explicit X86Assembler(CodeHolder *h) : c(h) {}
  Label newLabel() { return Label(jit_label_new(c->h)); }
  Error bind(const Label &l) { jit_label_bind(c->h, l.id); return 0; }
  Error embedConstPool(const Label &l, const ConstPool &p) { jit_label_data(c->h, l.id, p.data(), p.getSize()); return 0; }
  Error finalize() { return 0; }
#define D0(n, OP) void n() { e(OP); }
#define D1(n, OP) template <typename A> void n(const A &a) { e1(OP, 0, a); }
#define D2(n, OP) template <typename A, typename B> void n(const A &a, const B &b) { e2(OP, 0, a, b); }
  D2(add, J_ADD) D2(adc, J_ADC) D2(sbb, J_SBB) D2(and_, J_AND) D2(or_, J_OR) D2(xor_, J_XOR) D2(sub, J_SUB) D2(cmp, J_CMP) D2(test, J_TEST)
  D2(mov, J_MOV) D2(lea, J_LEA) D2(xchg, J_XCHG) D1(inc, J_INC) D1(dec, J_DEC) D1(neg, J_NEG) D1(not_, J_NOT)
  D2(shl, J_SHL) D2(sal, J_SAL) D2(shr, J_SHR) D2(sar, J_SAR)
  D1(push, J_PUSH) D1(pop, J_POP) D1(call, J_CALL) D0(ret, J_RET) D1(jmp, J_JMP)
  D2(movzx, J_MOVZX) D2(movsx, J_MOVSX) D2(movdqa, J_MOVDQA) D2(movdqu, J_MOVDQU) D2(movaps, J_MOVDQA) D2(movups, J_MOVDQU) D2(movnti, J_MOVNTI) D2(pxor, J_PXOR)
  D0(sfence, J_SFENCE) D0(mfence, J_SFENCE) D0(lfence, J_SFENCE) D0(nop, J_NOP)
  template <typename A, typename B, typename D> void pcmpistri(const A &a, const B &b, const D &d) { e3(J_PCMPISTRI, a, b, d); }
#define CC(s, C) template <typename A> void j##s(const A &a) { e1(J_JCC, C, a); } template <typename A, typename B> void cmov##s(const A &a, const B &b) { e2(J_CMOVCC, C, a, b); }
  CC(o, C_O) CC(no, C_NO) CC(b, C_B) CC(c, C_B) CC(nae, C_B) CC(ae, C_AE) CC(nb, C_AE) CC(nc, C_AE) CC(e, C_E) CC(z, C_E) CC(ne, C_NE) CC(nz, C_NE)
  CC(be, C_BE) CC(na, C_BE) CC(a, C_A) CC(nbe, C_A) CC(s, C_S) CC(ns, C_NS) CC(p, C_P) CC(np, C_NP) CC(l, C_L) CC(nge, C_L) CC(ge, C_GE) CC(nl, C_GE)
  CC(le, C_LE) CC(ng, C_LE) CC(g, C_G) CC(nle, C_G)
#undef CC
#undef D0
#undef D1
#undef D2
};
}
