// symrs: bounded symbolic execution of LLVM bitcode (whole Rust programs, fat LTO) with Z3 deciding branches.
// Every branch whose condition depends on symbolic bytes is decided by Z3 under the current path condition;
// both feasible sides are explored (the process forks).  A harness entry point fails when a path reaches a panic,
// an out-of-bounds access, an oversized allocation, a step limit or an explicit sym_fail.
#include "expr.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <functional>
#include <map>
#include <set>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>
using namespace llvm;

// ------------------------------------------------------------------ shared statistics
struct Shared {
  volatile u64 paths, assumed_out, violations, queries, sat, unsat, unknown, solver_ns, insts, forks, timeouts, workers, errors, exits, maxsteps, symbytes_max, obligations;
  volatile u64 reach[256]; volatile u64 vclass[64], vcount[64], newviol;
  volatile u64 samples; volatile int stop;
  char errmsg[2048];
  volatile u8 cov[1 << 17];
};
static Shared *S;
static int g_out_fd = -1; static u64 g_param = 0, g_max_paths = 0, g_max_workers = 8, g_max_steps = 50000000, g_alloc_limit = 1 << 20; static double g_deadline = 0; static u64 g_max_viol = 24;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
#define INC(f) __sync_fetch_and_add(&S->f, 1)
#define ADDTO(f, n) __sync_fetch_and_add(&S->f, (u64)(n))

[[noreturn]] static void end_process(); 
static std::string g_where_stack();
[[noreturn]] static void engine_error(const std::string &m) {
  if (INC(errors) == 0) snprintf(S->errmsg, sizeof S->errmsg, "%s [%s]", m.c_str(), g_where_stack().c_str());
  S->stop = 1; end_process();
}

// ------------------------------------------------------------------ values
struct Agg;
struct Val { u64 c; Expr *e; Agg *g; Val() : c(0), e(0), g(0) {} Val(u64 x) : c(x), e(0), g(0) {} Val(Expr *x) : c(0), e(x), g(0) {} 
  Val(const Val &o); Val &operator=(const Val &o); ~Val(); };
struct Agg { int rc; std::vector<Val> v; };
Val::Val(const Val &o) : c(o.c), e(o.e), g(o.g) { if (g) g->rc++; }
Val &Val::operator=(const Val &o) { if (o.g) o.g->rc++; if (g && --g->rc == 0) delete g; c = o.c; e = o.e; g = o.g; return *this; }
Val::~Val() { if (g && --g->rc == 0) delete g; }
static Val mkAgg(std::vector<Val> v) { Val r; r.g = new Agg{1, std::move(v)}; return r; }
static Val mkE(Expr *e) { if (e->k == E_CONST && e->w <= 64) return Val((u64)e->v); return Val(e); }
static Expr *toE(const Val &v, unsigned w) { if (v.e) return v.e; return K(v.c, w); }
static inline bool conc(const Val &v) { return !v.e; }

// ------------------------------------------------------------------ memory
struct Obj { u64 base, size; u8 *d; Expr **s; bool ro, freed, heap; };
static std::map<u64, Obj *> g_objs; static u64 g_next = 0x100000000ull; static Obj *g_last = 0;
static Obj *newObj(u64 size, u64 align, bool heap) {
  if (align < 16) align = 16; g_next = (g_next + align - 1) & ~(align - 1);
  Obj *o = new Obj(); o->base = g_next; o->size = size; o->d = (u8 *)calloc(1, size ? size : 1); o->s = 0; o->ro = false; o->freed = false; o->heap = heap;
  g_next += size + 32; g_objs[o->base] = o; return o;
}
static Obj *findObj(u64 a) {
  if (g_last && a >= g_last->base && a < g_last->base + g_last->size + (g_last->size == 0)) return g_last;
  auto it = g_objs.upper_bound(a); if (it == g_objs.begin()) return 0; --it; Obj *o = it->second;
  if (a <= o->base + o->size) { g_last = o; return o; } return 0;
}
static inline Expr *byteE(Obj *o, u64 off) { if (o->s && o->s[off]) return o->s[off]; return K(o->d[off], 8); }
static inline void setByte(Obj *o, u64 off, Expr *e) {
  if (e->k == E_CONST) { o->d[off] = (u8)e->v; if (o->s) o->s[off] = 0; return; }
  if (!o->s) o->s = (Expr **)calloc(o->size ? o->size : 1, sizeof(Expr *)); o->s[off] = e;
}

// ------------------------------------------------------------------ path state
static std::vector<std::pair<Expr *, bool>> g_pc; static Z3_solver g_sol; static u64 g_steps = 0, g_flushed = 0; static u32 g_nsym = 0;
struct In { int kind; std::string label; u32 first, n; u64 c; }; // kind 0 bytes, 1 choice
static std::vector<In> g_in; static bool g_model_ok = true; static std::string g_log; static int g_exit_ok = -1; static int g_panic_ok = -1;
static std::string g_reach; static u64 g_max_samples = 6; static int g_smp_fd = -1;
static std::vector<int> g_kids; static bool g_root = true; static bool g_holds_slot = false;

static void reap_all() { int st; while (true) { pid_t p = waitpid(-1, &st, 0); if (p < 0) { if (errno == EINTR) continue; break; }
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) { if (INC(errors) == 0) snprintf(S->errmsg, sizeof S->errmsg, "worker died (status %x)", st); S->stop = 1; } } }
static void finish_root();
static void flush() { ADDTO(insts, g_steps - g_flushed); g_flushed = g_steps; }
[[noreturn]] static void end_process() {
  flush(); u64 m; while ((m = S->maxsteps) < g_steps && !__sync_bool_compare_and_swap(&S->maxsteps, m, g_steps)); while ((m = S->symbytes_max) < g_nsym && !__sync_bool_compare_and_swap(&S->symbytes_max, m, (u64)g_nsym));
  if (g_holds_slot) { __sync_fetch_and_sub(&S->workers, 1); g_holds_slot = false; }
  reap_all(); if (g_root) finish_root(); _exit(0);
}
static void newStamp() { g_stamp++; }
static int solve(Expr *c, std::vector<u8> *model) { // sat of pc & c : 1 sat, 0 unsat
  if (S->stop) end_process();
  if (isK(c)) { if (!c->v) return 0; }
  double t0 = now(); INC(queries);
  Z3_solver_push(Z, g_sol); Z3_solver_assert(Z, g_sol, zB(c)); Z3_lbool r = Z3_solver_check(Z, g_sol);
  if (r == Z3_L_TRUE && model) {
    Z3_model m = Z3_solver_get_model(Z, g_sol); Z3_model_inc_ref(Z, m); model->assign(g_nsym, 0);
    for (u32 i = 0; i < g_nsym && i < g_symz.size(); i++) { Z3_ast v; if (Z3_model_eval(Z, m, g_symz[i], true, &v)) { unsigned x = 0; Z3_get_numeral_uint(Z, v, &x); (*model)[i] = x; } }
    Z3_model_dec_ref(Z, m);
  }
  Z3_solver_pop(Z, g_sol, 1);
  ADDTO(solver_ns, (now() - t0) * 1e9);
  if (r == Z3_L_UNDEF) { INC(unknown); engine_error("solver returned unknown"); }
  if (r == Z3_L_TRUE) INC(sat); else INC(unsat);
  return r == Z3_L_TRUE;
}
static void addPC(Expr *c) { if (isK(c)) return; Z3_solver_assert(Z, g_sol, zB(c)); g_pc.push_back({c, true}); }
static void checkBudget() { if (S->stop) end_process(); if (g_deadline && now() > g_deadline) { INC(timeouts); S->stop = 1; end_process(); } if (g_max_paths && S->paths > g_max_paths) { INC(timeouts); S->stop = 1; end_process(); } }
// returns 0 in the original process, 1 in the child.  The child explores first unless a worker slot is free.
static int do_fork() {
  checkBudget(); INC(forks); flush();
  bool par = false; u64 w = S->workers; if (w < g_max_workers && __sync_bool_compare_and_swap(&S->workers, w, w + 1)) par = true;
  pid_t p = fork();
  if (p < 0) { if (par) __sync_fetch_and_sub(&S->workers, 1); engine_error("fork failed"); }
  if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); g_root = false; g_holds_slot = par; return 1; }
  if (!par) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR); if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st))) { if (INC(errors) == 0) snprintf(S->errmsg, sizeof S->errmsg, "worker died (status %x)", st); S->stop = 1; }
    checkBudget(); }
  return 0;
}
static bool decide(Expr *c) {
  if (isK(c)) return c->v != 0;
  newStamp(); bool v = ev(c) != 0;                      // the current model satisfies the path condition
  std::vector<u8> m; Expr *other = v ? xNot(c) : c;
  if (!solve(other, &m)) return v;
  if (do_fork()) { addPC(other); g_model = m; return !v; }
  addPC(v ? c : xNot(c)); return v;
}
static u64 concretize(Expr *e, const char *why, u64 limit = 70000) { // enumerate every feasible value, one path each
  for (u64 n = 0; n < limit; n++) {
    if (isK(e)) return (u64)e->v;
    newStamp(); u128 v = ev(e); Expr *c = xEq(e, K(v, e->w)); std::vector<u8> m;
    if (isK(c)) return (u64)v;
    if (!solve(xNot(c), &m)) return (u64)v;
    if (do_fork()) { addPC(c); return (u64)v; }
    addPC(xNot(c)); g_model = m;
  }
  engine_error(std::string("too many values to enumerate: ") + why);
}
static u64 nway(u64 n) { // explore every value 0..n-1
  for (u64 i = 0; i + 1 < n; i++) if (do_fork()) return i;
  return n - 1;
}

// ------------------------------------------------------------------ program representation
enum Op : uint8_t { O_NOP, O_BIN, O_ICMP, O_FCMP, O_LOAD, O_STORE, O_GEP, O_ALLOCA, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_SELECT, O_CAST, O_EXTRACT, O_INSERT, O_UNREACH, O_ICMPXCHG, O_RMW, O_EXTELT, O_INSELT, O_SHUF, O_FREEZE, O_FBIN, O_FNEG, O_UNSUP };
struct Opd { int r; Val k; }; // r>=0 register, else constant
struct TypeI { int kind; unsigned w; u64 sz; std::vector<TypeI *> el; std::vector<u64> off; }; // kind 0 int/ptr/fp, 1 aggregate, 2 vector
struct Edge { int bb; std::vector<std::pair<int, Opd>> phis; };
struct FnI;
struct Ins { Op op; unsigned sub; TypeI *t, *t2; int dst; std::vector<Opd> o; std::vector<u64> idx; Edge e0, e1; std::vector<std::pair<u128, Edge>> cases; Function *callee; int builtin; Instruction *src; };
struct FnI { unsigned fmtw = 0; Function *f; int id; std::vector<std::vector<Ins>> bbs; int nregs; bool ready; std::string name; };
static Module *M; static const DataLayout *DL;
static std::map<Type *, TypeI *> g_types; static std::map<Function *, FnI *> g_fns; static std::map<const GlobalValue *, u64> g_gaddr; static std::map<u64, Function *> g_faddr;
static std::vector<std::string> g_fnames;

static TypeI *ty(Type *t) {
  auto &r = g_types[t]; if (r) return r; TypeI *i = new TypeI(); r = i; i->kind = 0; i->w = 0; i->sz = 0;
  if (t->isVoidTy() || t->isMetadataTy() || t->isLabelTy() || t->isTokenTy()) return i;
  if (t->isIntegerTy()) { i->w = t->getIntegerBitWidth(); i->sz = DL->getTypeStoreSize(t); }
  else if (t->isPointerTy()) { i->w = 64; i->sz = 8; }
  else if (t->isFloatTy()) { i->w = 32; i->sz = 4; } else if (t->isDoubleTy()) { i->w = 64; i->sz = 8; }
  else if (auto *st = dyn_cast<StructType>(t)) { i->kind = 1; if (!st->isOpaque()) { auto *sl = DL->getStructLayout(st); i->sz = DL->getTypeStoreSize(t); for (unsigned k = 0; k < st->getNumElements(); k++) { i->el.push_back(ty(st->getElementType(k))); i->off.push_back(sl->getElementOffset(k)); } } }
  else if (auto *at = dyn_cast<ArrayType>(t)) { i->kind = 1; i->sz = DL->getTypeStoreSize(t); if (at->getNumElements() <= 65536) for (u64 k = 0; k < at->getNumElements(); k++) { i->el.push_back(ty(at->getElementType())); i->off.push_back(k * DL->getTypeAllocSize(at->getElementType())); } }
  else if (auto *vt = dyn_cast<FixedVectorType>(t)) { i->kind = 2; TypeI *e = ty(vt->getElementType()); i->w = e->w * vt->getNumElements(); i->sz = (i->w + 7) / 8; for (unsigned k = 0; k < vt->getNumElements(); k++) i->el.push_back(e); }
  return i;
}
static Val zeroOf(TypeI *t) { if (t->kind == 0) return t->w > 64 ? Val(K(0, t->w)) : Val((u64)0); std::vector<Val> v; for (auto *e : t->el) v.push_back(zeroOf(e)); return mkAgg(v); }
static Val truncV(const Val &v, unsigned w) { if (v.e) return mkE(xExtract(v.e, 0, w)); return Val(w >= 64 ? v.c : v.c & ((1ull << w) - 1)); }

static Val constVal(Constant *c);
static u64 gepOff(GEPOperator *g) { APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) engine_error("non-constant gep constant"); return off.getZExtValue(); }
static Val castV(unsigned opc, const Val &v, TypeI *from, TypeI *to);
static Val binV(unsigned opc, const Val &a, const Val &b, unsigned w);
static Val icmpV(unsigned pred, const Val &a, const Val &b, unsigned w);
static Val constVal(Constant *c) {
  TypeI *t = ty(c->getType());
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (t->w <= 64) return Val(ci->getZExtValue()); u128 v = ci->getValue().extractBits(64, 0).getZExtValue(); v |= (u128)ci->getValue().lshr(64).trunc(64).getZExtValue() << 64; return Val(K(v, t->w)); }
  if (auto *cf = dyn_cast<ConstantFP>(c)) return Val(cf->getValueAPF().bitcastToAPInt().getZExtValue());
  if (isa<ConstantPointerNull>(c)) return Val((u64)0);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(t);
  if (auto *ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
  if (auto *gv = dyn_cast<GlobalValue>(c)) { auto it = g_gaddr.find(gv); if (it == g_gaddr.end()) engine_error("unknown global"); return Val(it->second); }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { std::vector<Val> v; for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(constVal(cd->getElementAsConstant(i))); return mkAgg(v); }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) { std::vector<Val> v; for (unsigned i = 0; i < ca->getNumOperands(); i++) v.push_back(constVal(ca->getOperand(i))); return mkAgg(v); }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *g = dyn_cast<GEPOperator>(ce)) { Val b = constVal(cast<Constant>(g->getPointerOperand())); return Val(b.c + gepOff(g)); }
    if (ce->isCast()) return castV(ce->getOpcode(), constVal(ce->getOperand(0)), ty(ce->getOperand(0)->getType()), t);
    if (ce->getOpcode() == Instruction::ICmp) return icmpV(ce->getPredicate(), constVal(ce->getOperand(0)), constVal(ce->getOperand(1)), ty(ce->getOperand(0)->getType())->w);
    if (Instruction::isBinaryOp(ce->getOpcode())) return binV(ce->getOpcode(), constVal(ce->getOperand(0)), constVal(ce->getOperand(1)), t->w);
  }
  std::string s; raw_string_ostream os(s); c->print(os); engine_error("unsupported constant " + s);
}

// memory with types
static std::string msgAt(const char *m, u64 a, u64 n) { char b[200]; snprintf(b, 200, "%s at %llx size %llu", m, (unsigned long long)a, (unsigned long long)n); return b; }
[[noreturn]] static void violation(const char *kind, const std::string &msg);
static Obj *access(u64 a, u64 n, bool wr) {
  Obj *o = findObj(a);
  if (!o || a + n > o->base + o->size || a < o->base) violation("memory", msgAt("out-of-bounds access", a, n));
  if (o->freed) violation("memory", msgAt("use after free", a, n));
  if (wr && o->ro) violation("memory", msgAt("write to constant", a, n));
  return o;
}
static Val loadC(u64 a, TypeI *t) {
  if (t->kind == 1) { std::vector<Val> v; for (size_t i = 0; i < t->el.size(); i++) v.push_back(loadC(a + t->off[i], t->el[i])); return mkAgg(std::move(v)); }
  if (t->kind == 2) { unsigned ew = t->el[0]->w; if (ew % 8) engine_error("load of bit vector"); std::vector<Val> v; for (size_t i = 0; i < t->el.size(); i++) v.push_back(loadC(a + i * ew / 8, t->el[i])); return mkAgg(std::move(v)); }
  u64 n = t->sz; Obj *o = access(a, n, false); u64 off = a - o->base;
  bool sym = false; if (o->s) for (u64 i = 0; i < n; i++) if (o->s[off + i]) { sym = true; break; }
  if (!sym && n <= 8) { u64 v = 0; memcpy(&v, o->d + off, n); return t->w >= 64 ? Val(v) : Val(v & ((1ull << t->w) - 1)); }
  Expr *e = byteE(o, off); for (u64 i = 1; i < n; i++) e = xConcat(byteE(o, off + i), e);
  return mkE(xExtract(e, 0, t->w));
}
static void storeC(u64 a, const Val &v, TypeI *t) {
  if (t->kind == 1) { for (size_t i = 0; i < t->el.size(); i++) storeC(a + t->off[i], v.g->v[i], t->el[i]); return; }
  if (t->kind == 2) { unsigned ew = t->el[0]->w; if (ew % 8) engine_error("store of bit vector"); for (size_t i = 0; i < t->el.size(); i++) storeC(a + i * ew / 8, v.g->v[i], t->el[i]); return; }
  u64 n = t->sz; Obj *o = access(a, n, true); u64 off = a - o->base;
  if (!v.e && n <= 8) { memcpy(o->d + off, &v.c, n); if (o->s) for (u64 i = 0; i < n; i++) o->s[off + i] = 0; return; }
  Expr *e = xZext(toE(v, t->w), n * 8); for (u64 i = 0; i < n; i++) setByte(o, off + i, xExtract(e, i * 8, 8));
}
// symbolic address: find the object, prove the access stays inside it (else fork), read through an if-then-else over the table
static Val loadS(Expr *a, TypeI *t, bool isptr) {
  while (true) {
    if (isK(a)) return loadC((u64)a->v, t);
    if (isptr || t->kind) return loadC(concretize(a, "pointer"), t);
    newStamp(); u64 v = (u64)ev(a); Obj *o = findObj(v);
    if (!o || v + t->sz > o->base + o->size || o->freed) { u64 c = concretize(a, "wild pointer"); return loadC(c, t); }
    if (o->size > 4096) return loadC(concretize(a, "large table"), t);
    Expr *off = xBin(E_SUB, a, K(o->base, 64));
    Expr *in = xBin(E_ULE, off, K(o->size - t->sz, 64));
    if (!decide(in)) continue;
    Expr *res = 0; std::vector<Expr *> bytes;
    for (u64 b = 0; b < t->sz; b++) {
      u64 last = o->size - t->sz; Expr *r = byteE(o, last + b); u64 runs = 0;
      u64 i = last; while (i > 0) { Expr *x = byteE(o, i - 1 + b); if (x != r || r->k == E_ITE) { // run boundary
          if (x == (r->k == E_ITE ? r->b : r)) { i--; continue; }
          r = mk(E_ITE, 8, xBin(E_ULT, off, K(i, 64)), x, r); runs++; } i--; }
      res = res ? xConcat(r, res) : r;
    }
    return mkE(xExtract(res, 0, t->w));
  }
}

// ------------------------------------------------------------------ operations
static unsigned ek(unsigned opc) { switch (opc) { case Instruction::Add: return E_ADD; case Instruction::Sub: return E_SUB; case Instruction::Mul: return E_MUL; case Instruction::UDiv: return E_UDIV; case Instruction::SDiv: return E_SDIV; case Instruction::URem: return E_UREM; case Instruction::SRem: return E_SREM; case Instruction::Shl: return E_SHL; case Instruction::LShr: return E_LSHR; case Instruction::AShr: return E_ASHR; case Instruction::And: return E_AND; case Instruction::Or: return E_OR; case Instruction::Xor: return E_XOR; } engine_error("binop"); }
static Val binV(unsigned opc, const Val &a, const Val &b, unsigned w) {
  EK k = (EK)ek(opc);
  if (!a.e && !b.e && w <= 64) {
    u64 m = w >= 64 ? ~0ull : (1ull << w) - 1;
    switch (k) { case E_ADD: return Val((a.c + b.c) & m); case E_SUB: return Val((a.c - b.c) & m); case E_MUL: return Val((a.c * b.c) & m); case E_AND: return Val(a.c & b.c); case E_OR: return Val(a.c | b.c); case E_XOR: return Val(a.c ^ b.c);
      case E_SHL: return Val(b.c >= w ? 0 : (a.c << b.c) & m); case E_LSHR: return Val(b.c >= w ? 0 : a.c >> b.c); default: break; }
  }
  if ((k == E_UDIV || k == E_UREM || k == E_SDIV || k == E_SREM) && !b.e && b.c == 0) engine_error("division by zero");
  return mkE(xBin(k, toE(a, w), toE(b, w)));
}
static Val icmpV(unsigned p, const Val &a, const Val &b, unsigned w) {
  if (!a.e && !b.e && w <= 64) {
    u64 x = a.c, y = b.c; i64 sxx = (i64)(x << (64 - w)) >> (64 - w), syy = (i64)(y << (64 - w)) >> (64 - w);
    switch (p) { case CmpInst::ICMP_EQ: return x == y; case CmpInst::ICMP_NE: return x != y; case CmpInst::ICMP_ULT: return x < y; case CmpInst::ICMP_ULE: return x <= y; case CmpInst::ICMP_UGT: return x > y; case CmpInst::ICMP_UGE: return x >= y;
      case CmpInst::ICMP_SLT: return sxx < syy; case CmpInst::ICMP_SLE: return sxx <= syy; case CmpInst::ICMP_SGT: return sxx > syy; case CmpInst::ICMP_SGE: return sxx >= syy; }
  }
  Expr *x = toE(a, w), *y = toE(b, w), *r = 0;
  switch (p) { case CmpInst::ICMP_EQ: r = xEq(x, y); break; case CmpInst::ICMP_NE: r = xNot(xEq(x, y)); break; case CmpInst::ICMP_ULT: r = xBin(E_ULT, x, y); break; case CmpInst::ICMP_ULE: r = xBin(E_ULE, x, y); break; case CmpInst::ICMP_UGT: r = xBin(E_ULT, y, x); break; case CmpInst::ICMP_UGE: r = xBin(E_ULE, y, x); break;
    case CmpInst::ICMP_SLT: r = xBin(E_SLT, x, y); break; case CmpInst::ICMP_SLE: r = xBin(E_SLE, x, y); break; case CmpInst::ICMP_SGT: r = xBin(E_SLT, y, x); break; case CmpInst::ICMP_SGE: r = xBin(E_SLE, y, x); break; default: engine_error("icmp"); }
  return mkE(r);
}
static Expr *packVec(const Val &v, TypeI *t) { Expr *e = 0; unsigned ew = t->el[0]->w; for (auto &x : v.g->v) { Expr *b = toE(x, ew); e = e ? xConcat(b, e) : b; } return e; }
static Val unpackVec(Expr *e, TypeI *t) { std::vector<Val> v; unsigned ew = t->el[0]->w; for (size_t i = 0; i < t->el.size(); i++) v.push_back(mkE(xExtract(e, i * ew, ew))); return mkAgg(std::move(v)); }
static double asD(u64 b, unsigned w) { if (w == 32) { float f; u32 x = (u32)b; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &b, 8); return d; }
static u64 fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; } u64 x; memcpy(&x, &d, 8); return x; }
static Val castV(unsigned opc, const Val &v, TypeI *from, TypeI *to) {
  if (opc == Instruction::BitCast) { if (from->kind == to->kind && from->kind == 0) return v; if (from->kind == 2 && to->kind == 0) return mkE(packVec(v, from)); if (from->kind == 0 && to->kind == 2) return unpackVec(toE(v, from->w), to); if (from->kind == 2 && to->kind == 2) return unpackVec(packVec(v, from), to); engine_error("bitcast"); }
  if (from->kind == 2) { std::vector<Val> r; for (size_t i = 0; i < v.g->v.size(); i++) r.push_back(castV(opc, v.g->v[i], from->el[i], to->el[i])); return mkAgg(std::move(r)); }
  switch (opc) {
  case Instruction::ZExt: if (!v.e && to->w <= 64) return v; return mkE(xZext(toE(v, from->w), to->w));
  case Instruction::SExt: if (!v.e && to->w <= 64) { i64 x = (i64)(v.c << (64 - from->w)) >> (64 - from->w); return Val(to->w >= 64 ? (u64)x : (u64)x & ((1ull << to->w) - 1)); } return mkE(xSext(toE(v, from->w), to->w));
  case Instruction::Trunc: return truncV(v, to->w);
  case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: if (to->w < from->w) return truncV(v, to->w); if (to->w > from->w) return mkE(xZext(toE(v, from->w), to->w)); return v;
  case Instruction::FPExt: case Instruction::FPTrunc: if (v.e) engine_error("symbolic fp cast"); return Val(fromD(asD(v.c, from->w), to->w));
  case Instruction::UIToFP: if (v.e) engine_error("symbolic uitofp"); return Val(to->w == 32 ? fromD((float)v.c, 32) : fromD((double)v.c, 64));
  case Instruction::SIToFP: if (v.e) engine_error("symbolic sitofp"); { i64 x = (i64)(v.c << (64 - from->w)) >> (64 - from->w); return Val(to->w == 32 ? fromD((float)x, 32) : fromD((double)x, 64)); }
  case Instruction::FPToUI: if (v.e) engine_error("symbolic fptoui"); return truncV(Val((u64)asD(v.c, from->w)), to->w);
  case Instruction::FPToSI: if (v.e) engine_error("symbolic fptosi"); return truncV(Val((u64)(i64)asD(v.c, from->w)), to->w);
  }
  engine_error("cast");
}
static Val selectV(const Val &c, const Val &a, const Val &b, TypeI *t) {
  if (!c.e) return c.c ? a : b;
  if (t->kind) { std::vector<Val> r; for (size_t i = 0; i < t->el.size(); i++) r.push_back(selectV(c, a.g->v[i], b.g->v[i], t->el[i])); return mkAgg(std::move(r)); }
  return mkE(xIte(c.e, toE(a, t->w), toE(b, t->w)));
}

// ------------------------------------------------------------------ compile
enum BI { B_NONE, B_IGNORE, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_STRLEN, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_PMEMALIGN, B_ALIGNALLOC, B_PANIC, B_PANICSTR, B_ABORT, B_EXIT,
  B_WRITE, B_WRITEV, B_SYM_BYTES, B_SYM_ASSUME, B_SYM_CHOICE, B_SYM_FAIL, B_SYM_REACH, B_SYM_LOG, B_SYM_EXITOK, B_SYM_PANICOK, B_SYM_CHECK, B_SYM_ISSYM, B_SYM_CONCRETE, B_SYM_PARAM,
  B_OVF, B_SAT, B_MINMAX, B_CTPOP, B_CTLZ, B_CTTZ, B_BSWAP, B_FSH, B_ABS, B_EXPECT, B_TRAP, B_PMOVMSKB, B_LOADREL, B_VREDADD, B_VREDOR, B_VREDAND, B_RET0, B_RETNEG1, B_ERRNO, B_CLOCK, B_SYSCALL, B_THREADLOCALADDR, B_ISCONST, B_FABS, B_COPYSIGN, B_BITREV, B_UNKNOWN, B_OBJSIZE, B_FPCLASS, B_FSAT, B_ALLOCERR, B_DOWNCAST, B_SYM_ARGS, B_SYM_ONEXIT, B_OPEN, B_READ, B_CLOSE, B_STAT, B_FSTAT, B_LSEEK, B_UNLINK, B_MKDIR, B_RMDIR, B_GETCWD, B_RENAME, B_FTRUNC, B_NOENT, B_SYSCONF, B_STRERR, B_RET1 };
static int classify(Function *f) {
  std::string n = f->getName().str();
  if (f->isIntrinsic()) {
    switch (f->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: return B_MEMCPY; case Intrinsic::memmove: return B_MEMMOVE; case Intrinsic::memset: return B_MEMSET;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::x86_sse2_pause: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::stackrestore: return B_IGNORE;
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: return B_OVF;
    case Intrinsic::uadd_sat: case Intrinsic::usub_sat: case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: return B_SAT;
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: return B_MINMAX;
    case Intrinsic::ctpop: return B_CTPOP; case Intrinsic::ctlz: return B_CTLZ; case Intrinsic::cttz: return B_CTTZ; case Intrinsic::bswap: return B_BSWAP; case Intrinsic::bitreverse: return B_BITREV; case Intrinsic::fshl: case Intrinsic::fshr: return B_FSH; case Intrinsic::abs: return B_ABS;
    case Intrinsic::expect: return B_EXPECT; case Intrinsic::trap: return B_TRAP; case Intrinsic::x86_sse2_pmovmskb_128: return B_PMOVMSKB; case Intrinsic::load_relative: return B_LOADREL;
    case Intrinsic::vector_reduce_add: return B_VREDADD; case Intrinsic::vector_reduce_or: return B_VREDOR; case Intrinsic::vector_reduce_and: return B_VREDAND; case Intrinsic::threadlocal_address: return B_THREADLOCALADDR; case Intrinsic::is_constant: return B_RET0; case Intrinsic::fabs: return B_FABS; case Intrinsic::copysign: return B_COPYSIGN; case Intrinsic::stacksave: return B_RET0; case Intrinsic::fptoui_sat: case Intrinsic::fptosi_sat: return B_FSAT;
    default: return B_UNKNOWN;
    }
  }
  static const std::map<std::string, int> tbl = {{"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"strlen", B_STRLEN}, {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"posix_memalign", B_PMEMALIGN}, {"aligned_alloc", B_ALIGNALLOC},
    {"abort", B_ABORT}, {"exit", B_EXIT}, {"_exit", B_EXIT}, {"write", B_WRITE}, {"writev", B_WRITEV}, {"sym_bytes", B_SYM_BYTES}, {"sym_assume", B_SYM_ASSUME}, {"sym_choice", B_SYM_CHOICE}, {"sym_fail", B_SYM_FAIL}, {"sym_reach", B_SYM_REACH}, {"sym_log", B_SYM_LOG}, {"sym_exit_ok", B_SYM_EXITOK}, {"sym_panic_ok", B_SYM_PANICOK}, {"sym_check", B_SYM_CHECK}, {"sym_concrete", B_SYM_CONCRETE}, {"sym_param", B_SYM_PARAM},
    {"__cxa_thread_atexit_impl", B_RET0}, {"getenv", B_RET0}, {"pthread_key_create", B_RET0}, {"pthread_setspecific", B_RET0}, {"pthread_getspecific", B_RET0}, {"pthread_key_delete", B_RET0}, {"__errno_location", B_ERRNO}, {"clock_gettime", B_CLOCK}, {"syscall", B_SYSCALL}, {"getrandom", B_SYSCALL}, {"getpid", B_RET0}, {"sched_yield", B_RET0},
    {"sym_args", B_SYM_ARGS}, {"sym_on_exit", B_SYM_ONEXIT}, {"open64", B_OPEN}, {"open", B_OPEN}, {"read", B_READ}, {"close", B_CLOSE}, {"stat64", B_STAT}, {"stat", B_STAT}, {"lstat64", B_STAT}, {"fstat64", B_FSTAT}, {"fstat", B_FSTAT}, {"lseek64", B_LSEEK}, {"lseek", B_LSEEK}, {"unlink", B_UNLINK}, {"mkdir", B_MKDIR}, {"rmdir", B_RMDIR}, {"getcwd", B_GETCWD}, {"rename", B_RENAME}, {"ftruncate64", B_FTRUNC}, {"ftruncate", B_FTRUNC}, {"realpath", B_NOENT}, {"readlink", B_NOENT}, {"sysconf", B_SYSCONF}, {"__xpg_strerror_r", B_STRERR}, {"fsync", B_RET0}, {"fdatasync", B_RET0}, {"chmod", B_RET0}, {"fchmod", B_RET0}, {"mmap64", B_RETNEG1}, {"munmap", B_RET0}, {"sigaltstack", B_RET0}, {"_Unwind_Backtrace", B_RET0}};
  auto it = tbl.find(n); if (it != tbl.end()) return it->second;
  if (n.find("core9panicking") != std::string::npos || n.find("3std9panicking11begin_panic") != std::string::npos || n.find("rust_panic_with_hook") != std::string::npos || n == "rust_begin_unwind" || n.find("core6option13expect_failed") != std::string::npos || n.find("core6option13unwrap_failed") != std::string::npos || n.find("core6result13unwrap_failed") != std::string::npos) return B_PANIC;
  if (n.find("core..hash..sip..Hasher") != std::string::npos && n.find("6finish17h") != std::string::npos) return B_RET0;
  if (n.find("core..hash..sip..Hasher") != std::string::npos && n.find("5write17h") != std::string::npos) return B_IGNORE;
  if (n.find("handle_alloc_error") != std::string::npos || n == "__rust_alloc_error_handler" || n == "__rg_oom" ) return B_ALLOCERR;
  if (n.find("3std7process4exit") != std::string::npos) return B_EXIT;
  if (n.find("3std7process5abort") != std::string::npos) return B_ABORT;
  if (n.find("3std2io5stdio6_print") != std::string::npos || n.find("3std2io5stdio7_eprint") != std::string::npos) return B_IGNORE;
  if (f->isDeclaration()) return B_UNKNOWN;
  return B_NONE;
}
static FnI *getFn(Function *f); static unsigned fmtWidth(const std::string &n);
static void compileFn(FnI *fi) {
  Function *f = fi->f; std::map<Value *, int> reg; int n = 0; std::map<BasicBlock *, int> bbi;
  for (auto &a : f->args()) reg[&a] = n++;
  int b = 0; for (auto &bb : *f) { bbi[&bb] = b++; for (auto &i : bb) if (!i.getType()->isVoidTy()) reg[&i] = n++; }
  fi->nregs = n; fi->bbs.resize(b);
  auto opd = [&](Value *v) { Opd o; auto it = reg.find(v); if (it != reg.end()) { o.r = it->second; return o; } o.r = -1; if (auto *c = dyn_cast<Constant>(v)) o.k = constVal(c); return o; };
  auto edge = [&](BasicBlock *from, BasicBlock *to) { Edge e; e.bb = bbi[to]; for (auto &p : to->phis()) { int ix = p.getBasicBlockIndex(from); e.phis.push_back({reg[&p], opd(p.getIncomingValue(ix))}); } return e; };
  b = 0;
  for (auto &bb : *f) { auto &out = fi->bbs[b++];
    for (auto &i : bb) {
      if (isa<PHINode>(i) || isa<DbgInfoIntrinsic>(i)) continue;
      Ins x; x.sub = 0; x.t2 = 0; x.callee = 0; x.builtin = 0; x.src = &i; x.t = ty(i.getType()); x.dst = i.getType()->isVoidTy() ? -1 : reg[&i]; x.op = O_UNSUP; x.e0.bb = x.e1.bb = -1;
      if (auto *bo = dyn_cast<BinaryOperator>(&i)) { x.op = bo->getType()->isFPOrFPVectorTy() ? O_FBIN : O_BIN; x.sub = bo->getOpcode(); x.o = {opd(bo->getOperand(0)), opd(bo->getOperand(1))}; }
      else if (auto *c = dyn_cast<ICmpInst>(&i)) { x.op = O_ICMP; x.sub = c->getPredicate(); x.t2 = ty(c->getOperand(0)->getType()); x.o = {opd(c->getOperand(0)), opd(c->getOperand(1))}; }
      else if (auto *c = dyn_cast<FCmpInst>(&i)) { x.op = O_FCMP; x.sub = c->getPredicate(); x.t2 = ty(c->getOperand(0)->getType()); x.o = {opd(c->getOperand(0)), opd(c->getOperand(1))}; }
      else if (auto *l = dyn_cast<LoadInst>(&i)) { x.op = O_LOAD; x.sub = l->getType()->isPointerTy(); x.o = {opd(l->getPointerOperand())}; }
      else if (auto *s = dyn_cast<StoreInst>(&i)) { x.op = O_STORE; x.t2 = ty(s->getValueOperand()->getType()); x.o = {opd(s->getValueOperand()), opd(s->getPointerOperand())}; }
      else if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
        x.op = O_GEP; if (g->getType()->isVectorTy()) x.op = O_UNSUP; x.o.push_back(opd(g->getPointerOperand())); u64 off = 0;
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) { Value *ix = it.getOperand();
          if (auto *st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          u64 sc = DL->getTypeAllocSize(it.getIndexedType());
          if (auto *ci = dyn_cast<ConstantInt>(ix)) { off += ci->getSExtValue() * sc; continue; }
          x.o.push_back(opd(ix)); x.idx.push_back(sc); x.idx.push_back(ty(ix->getType())->w); }
        x.idx.push_back(off); }
      else if (auto *a = dyn_cast<AllocaInst>(&i)) { x.op = O_ALLOCA; x.idx = {(u64)DL->getTypeAllocSize(a->getAllocatedType()), (u64)a->getAlign().value()}; x.o = {opd(a->getArraySize())}; }
      else if (auto *br = dyn_cast<BranchInst>(&i)) { if (br->isConditional()) { x.op = O_CBR; x.o = {opd(br->getCondition())}; x.e0 = edge(&bb, br->getSuccessor(0)); x.e1 = edge(&bb, br->getSuccessor(1)); } else { x.op = O_BR; x.e0 = edge(&bb, br->getSuccessor(0)); } }
      else if (auto *sw = dyn_cast<SwitchInst>(&i)) { x.op = O_SWITCH; x.t2 = ty(sw->getCondition()->getType()); x.o = {opd(sw->getCondition())}; x.e0 = edge(&bb, sw->getDefaultDest()); for (auto &cs : sw->cases()) { auto &ap = cs.getCaseValue()->getValue(); u128 v = ap.getBitWidth() <= 64 ? (u128)ap.getZExtValue() : (((u128)ap.lshr(64).trunc(64).getZExtValue() << 64) | ap.trunc(64).getZExtValue()); x.cases.push_back({v, edge(&bb, cs.getCaseSuccessor())}); } }
      else if (auto *r = dyn_cast<ReturnInst>(&i)) { x.op = O_RET; if (r->getReturnValue()) x.o = {opd(r->getReturnValue())}; }
      else if (isa<UnreachableInst>(&i) || isa<ResumeInst>(&i)) x.op = O_UNREACH;
      else if (auto *cb = dyn_cast<CallBase>(&i)) {
        x.op = O_CALL; if (cb->isInlineAsm()) { auto *ia = cast<InlineAsm>(cb->getCalledOperand()); if (ia->getAsmString().empty()) { x.builtin = B_EXPECT; x.sub = 0; if (cb->arg_size()) x.o.push_back(opd(cb->getArgOperand(0))); else x.builtin = B_IGNORE; } else if (ia->getAsmString().find("cpuid") != std::string::npos) { x.op = O_FREEZE; x.o = {Opd{-1, zeroOf(ty(i.getType()))}}; } else x.op = O_UNSUP; }
        else { x.callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts()); if (x.callee) { x.builtin = classify(x.callee); x.sub = x.callee->getIntrinsicID(); }
          for (auto &a : cb->args()) { if (a->getType()->isMetadataTy()) { x.o.push_back(Opd{-1, Val((u64)0)}); continue; } x.o.push_back(opd(a.get())); }
          if (cb->arg_size()) x.t2 = ty(cb->getArgOperand(0)->getType());
          if (!x.callee) x.o.push_back(opd(cb->getCalledOperand())); }
        if (auto *iv = dyn_cast<InvokeInst>(&i)) x.e0 = edge(&bb, iv->getNormalDest()); }
      else if (auto *s = dyn_cast<SelectInst>(&i)) { x.op = O_SELECT; x.sub = (s->getType()->isPointerTy() ? 1 : 0) | (s->getCondition()->getType()->isVectorTy() ? 2 : 0); x.o = {opd(s->getCondition()), opd(s->getTrueValue()), opd(s->getFalseValue())}; }
      else if (auto *c = dyn_cast<CastInst>(&i)) { x.op = O_CAST; x.sub = c->getOpcode(); x.t2 = ty(c->getSrcTy()); x.o = {opd(c->getOperand(0))}; }
      else if (auto *e = dyn_cast<ExtractValueInst>(&i)) { x.op = O_EXTRACT; x.o = {opd(e->getAggregateOperand())}; for (auto k : e->indices()) x.idx.push_back(k); }
      else if (auto *e = dyn_cast<InsertValueInst>(&i)) { x.op = O_INSERT; x.o = {opd(e->getAggregateOperand()), opd(e->getInsertedValueOperand())}; for (auto k : e->indices()) x.idx.push_back(k); }
      else if (auto *e = dyn_cast<ExtractElementInst>(&i)) { x.op = O_EXTELT; x.o = {opd(e->getVectorOperand()), opd(e->getIndexOperand())}; }
      else if (auto *e = dyn_cast<InsertElementInst>(&i)) { x.op = O_INSELT; x.o = {opd(e->getOperand(0)), opd(e->getOperand(1)), opd(e->getOperand(2))}; }
      else if (auto *e = dyn_cast<ShuffleVectorInst>(&i)) { x.op = O_SHUF; x.o = {opd(e->getOperand(0)), opd(e->getOperand(1))}; for (int k : e->getShuffleMask()) x.idx.push_back((u64)(i64)k); }
      else if (auto *fr = dyn_cast<FreezeInst>(&i)) { x.op = O_FREEZE; x.o = {opd(fr->getOperand(0))}; }
      else if (i.getOpcode() == Instruction::FNeg) { x.op = O_FNEG; x.o = {opd(i.getOperand(0))}; }
      else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&i)) { x.op = O_ICMPXCHG; x.t2 = ty(cx->getCompareOperand()->getType()); x.o = {opd(cx->getPointerOperand()), opd(cx->getCompareOperand()), opd(cx->getNewValOperand())}; }
      else if (auto *rm = dyn_cast<AtomicRMWInst>(&i)) { x.op = O_RMW; x.sub = rm->getOperation(); x.o = {opd(rm->getPointerOperand()), opd(rm->getValOperand())}; }
      else if (isa<FenceInst>(&i)) continue;
      else if (isa<LandingPadInst>(&i)) x.op = O_UNREACH;
      out.push_back(std::move(x));
    } }
  fi->ready = true;
}
static FnI *getFn(Function *f) {
  auto &r = g_fns[f]; if (!r) { r = new FnI(); r->f = f; r->id = g_fns.size() - 1; r->ready = false; r->name = f->getName().str(); r->fmtw = fmtWidth(r->name); }
  return r;
}

// ------------------------------------------------------------------ interpreter
struct Frame { FnI *f; int bb; size_t ip; std::vector<Val> r; std::vector<u64> allocas; Ins *call; };
static std::vector<Frame> g_stack;
static std::string dem(const std::string &n) { std::string d = llvm::demangle(n); size_t p = d.rfind("::h"); if (p != std::string::npos && d.size() - p == 19) d = d.substr(0, p); return d; }
static std::string locOf(Instruction *i) { if (!i) return ""; if (auto &d = i->getDebugLoc()) { char b[32]; snprintf(b, 32, ":%u", d.getLine()); return d->getFilename().str() + b; } return ""; }
static std::string g_where_stack() { std::string s; int n = 0; for (auto it = g_stack.rbegin(); it != g_stack.rend() && n < 14; ++it, ++n) { s += dem(it->f->name); if (it->bb >= 0 && (size_t)it->bb < it->f->bbs.size() && it->ip < it->f->bbs[it->bb].size()) { s += "@" + locOf(it->f->bbs[it->bb][it->ip].src); } s += " < "; } return s; }
static std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static std::string inputsJson() { std::string s; bool first = true;
  for (auto &i : g_in) { if (!first) s += ","; first = false; char b[64];
    if (i.kind == 1) { snprintf(b, 64, "{\"c\":%llu}", (unsigned long long)i.c); s += b; }
    else { s += "{\"b\":\""; for (u32 k = 0; k < i.n; k++) { snprintf(b, 64, "%02x", i.first + k < g_model.size() ? g_model[i.first + k] : 0); s += b; } s += "\"}"; } }
  return s; }
static void emitViolation(const char *kind, const std::string &msg) {
  std::string s = "{\"kind\":\"" + std::string(kind) + "\",\"msg\":\"" + jesc(msg) + "\",\"stack\":\"" + jesc(g_where_stack()) + "\",\"reach\":\"" + g_reach + "\",\"inputs\":[" + inputsJson();
  s += "],\"log\":\"" + jesc(g_log) + "\"}\n";
  if (write(g_out_fd, s.data(), s.size()) < 0) {}
}
[[noreturn]] static void violation(const char *kind, const std::string &msg) {
  // violations are grouped by kind and message; two of each group are reported, and only many groups end the run
  INC(paths); INC(violations); u64 h = std::hash<std::string>()(std::string(kind) + "|" + msg) | 1; int i = 0;
  for (; i < 64; i++) { if (S->vclass[i] == h) break; if (!S->vclass[i] && (__sync_bool_compare_and_swap(&S->vclass[i], 0, h) || S->vclass[i] == h)) break; }
  if (i < 64 && INC(vcount[i]) < 2) emitViolation(kind, msg);
  if (i >= (int)g_max_viol || (msg.compare(0, 3, "KF:") && INC(newviol) > 300)) S->stop = 1;
  end_process();
}
[[noreturn]] static void path_done(const char *how = "return") {
  u64 n = INC(paths); // keep some completed paths (the first ones and then exponentially spaced ones) for native validation
  if (g_smp_fd >= 0 && (n < g_max_samples || (n & (n - 1)) == 0)) { INC(samples); std::string s = "{\"end\":\"" + std::string(how) + "\",\"reach\":\"" + g_reach + "\",\"inputs\":[" + inputsJson() + "]}\n"; if (write(g_smp_fd, s.data(), s.size()) < 0) {} }
  end_process(); }
static std::string rdstr(u64 p, u64 n) { std::string s; Obj *o = findObj(p); if (!o) return "?"; for (u64 i = 0; i < n && p + i < o->base + o->size && i < 400; i++) { u64 off = p + i - o->base; s += (o->s && o->s[off]) ? '?' : (char)o->d[off]; } return s; }
static std::string panicLoc(const std::vector<Val> &a) { // any argument that looks like &Location or &Arguments / &str
  std::string s;
  for (size_t i = 0; i < a.size(); i++) { if (a[i].e || a[i].g) continue; Obj *o = findObj(a[i].c); if (!o || o->freed) continue; u64 off = a[i].c - o->base;
    if (o->size - off >= 24 && off <= o->size) { u64 p, n; u32 l, c; memcpy(&p, o->d + off, 8); memcpy(&n, o->d + off + 8, 8); memcpy(&l, o->d + off + 16, 4); memcpy(&c, o->d + off + 20, 4);
      if (n < 300 && n > 3 && findObj(p) && l < 200000) { std::string f = rdstr(p, n); if (f.size() == n && f.find(".rs") != std::string::npos && f.find('\n') == std::string::npos) { char b[64]; snprintf(b, 64, ":%u:%u", l, c); s += " at " + f + b; continue; } }
      // fmt::Arguments: pieces ptr,len
      if (n >= 1 && n < 20) { Obj *po = findObj(p); if (po && po->size - (p - po->base) >= 16) { u64 pp, pn; memcpy(&pp, po->d + (p - po->base), 8); memcpy(&pn, po->d + (p - po->base) + 8, 8); if (pn < 300 && findObj(pp)) { s += " '" + rdstr(pp, pn) + "'"; continue; } } } }
    if (i + 1 < a.size() && !a[i + 1].e && !a[i + 1].g && a[i + 1].c > 0 && a[i + 1].c < 300 && a[i + 1].c <= o->size - off) s += " '" + rdstr(a[i].c, a[i + 1].c) + "'"; }
  return s;
}
static u64 cv(const Val &v, const char *why) { if (!v.e) return v.c; return concretize(v.e, why); }
static u64 allocSize(const Val &v) {
  if (!v.e) { if (v.c > g_alloc_limit) violation("huge-alloc", "allocation of " + std::to_string(v.c) + " bytes"); return v.c; }
  if (decide(xBin(E_ULT, K(g_alloc_limit, 64), v.e))) violation("huge-alloc", "allocation whose size is under the control of the input exceeds the limit");
  return concretize(v.e, "allocation size");
}
static void copyMem(u64 d, u64 s, u64 n) {
  if (!n) return; Obj *so = access(s, n, false), *dobj = access(d, n, true); u64 a = s - so->base, b = d - dobj->base;
  memmove(dobj->d + b, so->d + a, n);
  if (so->s) { if (!dobj->s) dobj->s = (Expr **)calloc(dobj->size, sizeof(Expr *)); memmove(dobj->s + b, so->s + a, n * sizeof(Expr *)); }
  else if (dobj->s) memset((void *)(dobj->s + b), 0, n * sizeof(Expr *));
}
static Val reallocObj(u64 p, u64 n, u64 al) {
  Obj *o = newObj(n, al, true); if (p) { Obj *old = findObj(p); if (!old || old->base != p || old->freed) violation("memory", "bad realloc"); u64 m = std::min(n, old->size); copyMem(o->base, p, m); old->freed = true; }
  return Val(o->base);
}
static Expr *cmpMem(u64 a, u64 b, u64 n) { // sign of the first difference as i32 (memcmp / bcmp)
  Expr *r = K(0, 32); if (!n) return r; Obj *x = access(a, n, false), *y = access(b, n, false);
  for (u64 i = n; i-- > 0;) { Expr *p = byteE(x, a - x->base + i), *q = byteE(y, b - y->base + i);
    if (p == q) continue; r = xIte(xEq(p, q), r, xIte(xBin(E_ULT, p, q), K(-(i64)1, 32), K(1, 32))); }
  return r;
}
static Val mapVec(TypeI *t, const std::vector<Val> &a, std::function<Val(const std::vector<Val> &, TypeI *)> f) {
  if (t->kind != 2) return f(a, t); std::vector<Val> r;
  for (size_t i = 0; i < t->el.size(); i++) { std::vector<Val> x; for (auto &v : a) x.push_back(v.g ? v.g->v[i] : v); r.push_back(f(x, t->el[i])); } return mkAgg(std::move(r));
}
static Expr *ctz(Expr *e, unsigned w) { Expr *r = K(w, w); for (int i = w - 1; i >= 0; i--) r = xIte(xExtract(e, i, 1), K(i, w), r); return r; }
static Expr *clz(Expr *e, unsigned w) { Expr *r = K(w, w); for (unsigned i = 0; i < w; i++) r = xIte(xExtract(e, i, 1), K(w - 1 - i, w), r); return r; }
static Expr *pop(Expr *e, unsigned w) { Expr *r = K(0, w); for (unsigned i = 0; i < w; i++) r = xBin(E_ADD, r, xZext(xExtract(e, i, 1), w)); return r; }
static u64 g_errno = 0; static u64 g_clock = 1700000000;

// ------------------------------------------------------------------ files: an in-memory file system (directories, regular files, symbolic contents)
struct FNode { bool dir; std::vector<Expr *> b; };
struct FDesc { FNode *n; u64 off; bool wr, app; };
static std::map<std::string, FNode *> g_fs = {{"/", new FNode{true, {}}}, {"/w", new FNode{true, {}}}}; static std::map<u64, FDesc> g_fd; static u64 g_nextfd = 10, g_on_exit = 0;
static u64 errnoAddr() { static Obj *eo = 0; if (!eo) eo = newObj(8, 8, false); return eo->base; }
static Val fail(int e) { storeC(errnoAddr(), Val((u64)e), ty(Type::getInt32Ty(M->getContext()))); return Val(~0ull); }
static std::string cstr(u64 p) { std::string s; while (true) { Obj *o = access(p, 1, false); Expr *e = byteE(o, p - o->base); u64 c = isK(e) ? (u64)e->v : concretize(e, "file name"); if (!c) return s; s += (char)c; p++; } }
static std::string absPath(const std::string &p) {
  std::vector<std::string> c; std::string q = p.size() && p[0] == '/' ? p : "/w/" + p, w;
  for (size_t i = 0; i <= q.size(); i++) if (i == q.size() || q[i] == '/') { if (w == "..") { if (!c.empty()) c.pop_back(); } else if (w != "" && w != ".") c.push_back(w); w = ""; } else w += q[i];
  std::string r; for (auto &x : c) r += "/" + x; return r.empty() ? "/" : r;
}
static std::string dirOf(const std::string &p) { size_t i = p.rfind('/'); return i == 0 ? "/" : p.substr(0, i); }
static Val putStat(u64 p, FNode *n) { Obj *o = access(p, 144, true); u64 b = p - o->base; for (int i = 0; i < 144; i++) setByte(o, b + i, K(0, 8)); u32 m = n->dir ? 040755 : 0100644; u64 sz = n->b.size(), one = 1; memcpy(o->d + b + 16, &one, 8); memcpy(o->d + b + 24, &m, 4); memcpy(o->d + b + 48, &sz, 8); one = 4096; memcpy(o->d + b + 56, &one, 8); return Val((u64)0); }
static Val fsCall(int k, std::vector<Val> &a) {
  auto N = [&](int i) { return cv(a[i], "file call"); };
  switch (k) {
  case B_OPEN: { std::string p = absPath(cstr(N(0))); u64 fl = N(1) & 0xffffffff; auto it = g_fs.find(p); FNode *n;
    if (it == g_fs.end()) { if (!(fl & 0x40)) return fail(2); auto d = g_fs.find(dirOf(p)); if (d == g_fs.end()) return fail(2); if (!d->second->dir) return fail(20); n = g_fs[p] = new FNode{false, {}}; }
    else { n = it->second; if ((fl & 0xC0) == 0xC0) return fail(17); if (n->dir && ((fl & 3) || (fl & 0x40))) return fail(21); }
    if ((fl & 0x200) && !n->dir) n->b.clear(); g_fd[g_nextfd] = FDesc{n, 0, (fl & 3) != 0, (fl & 0x400) != 0}; return Val(g_nextfd++); }
  case B_READ: { auto it = g_fd.find(N(0)); if (it == g_fd.end()) return fail(9); FDesc &d = it->second; if (d.n->dir) return fail(21); u64 p = N(1), n = N(2), av = d.off < d.n->b.size() ? d.n->b.size() - d.off : 0; if (n > av) n = av;
    if (n) { Obj *o = access(p, n, true); for (u64 i = 0; i < n; i++) setByte(o, p - o->base + i, d.n->b[d.off + i]); } d.off += n; return Val(n); }
  case B_WRITE: { u64 f = N(0); auto it = g_fd.find(f); if (it == g_fd.end()) { if (f <= 2) return a[2]; return fail(9); } FDesc &d = it->second; if (!d.wr) return fail(9); u64 p = N(1), n = N(2); if (d.app) d.off = d.n->b.size(); if (d.n->b.size() < d.off + n) d.n->b.resize(d.off + n, K(0, 8));
    if (n) { Obj *o = access(p, n, false); for (u64 i = 0; i < n; i++) d.n->b[d.off + i] = byteE(o, p - o->base + i); } d.off += n; return Val(n); }
  case B_CLOSE: g_fd.erase(N(0)); return Val((u64)0);
  case B_STAT: { auto it = g_fs.find(absPath(cstr(N(0)))); if (it == g_fs.end()) return fail(2); return putStat(N(1), it->second); }
  case B_FSTAT: { auto it = g_fd.find(N(0)); if (it == g_fd.end()) return fail(9); return putStat(N(1), it->second.n); }
  case B_LSEEK: { auto it = g_fd.find(N(0)); if (it == g_fd.end()) return fail(9); i64 o = (i64)N(1); u64 w = N(2); i64 b = w == 0 ? 0 : w == 1 ? (i64)it->second.off : (i64)it->second.n->b.size(); if (b + o < 0) return fail(22); it->second.off = b + o; return Val(it->second.off); }
  case B_FTRUNC: { auto it = g_fd.find(N(0)); if (it == g_fd.end()) return fail(9); it->second.n->b.resize(N(1), K(0, 8)); return Val((u64)0); }
  case B_UNLINK: { std::string p = absPath(cstr(N(0))); auto it = g_fs.find(p); if (it == g_fs.end()) return fail(2); if (it->second->dir) return fail(21); g_fs.erase(it); return Val((u64)0); }
  case B_MKDIR: { std::string p = absPath(cstr(N(0))); if (g_fs.count(p)) return fail(17); auto d = g_fs.find(dirOf(p)); if (d == g_fs.end()) return fail(2); if (!d->second->dir) return fail(20); g_fs[p] = new FNode{true, {}}; return Val((u64)0); }
  case B_RMDIR: { std::string p = absPath(cstr(N(0))); auto it = g_fs.find(p); if (it == g_fs.end()) return fail(2); if (!it->second->dir) return fail(20); for (auto &x : g_fs) if (x.first.compare(0, p.size() + 1, p + "/") == 0) return fail(39); g_fs.erase(it); return Val((u64)0); }
  case B_RENAME: { std::string p = absPath(cstr(N(0))), q = absPath(cstr(N(1))); auto it = g_fs.find(p); if (it == g_fs.end()) return fail(2); FNode *n = it->second; if (n->dir) engine_error("rename of a directory"); g_fs.erase(it); g_fs[q] = n; return Val((u64)0); }
  case B_GETCWD: { u64 p = N(0); Obj *o = access(p, 3, true); setByte(o, p - o->base, K('/', 8)); setByte(o, p - o->base + 1, K('w', 8)); setByte(o, p - o->base + 2, K(0, 8)); return Val(p); }
  }
  engine_error("file call");
}

// one builtin call; returns false when the callee must be entered normally
static Val builtin(Ins &x, std::vector<Val> &a) {
  TypeI *t = x.t;
  switch (x.builtin) {
  case B_IGNORE: return Val((u64)0);
  case B_EXPECT: case B_THREADLOCALADDR: return a.empty() ? Val((u64)0) : a[0];
  case B_MEMCPY: case B_MEMMOVE: { u64 n = cv(a[2], "copy size"); if (n) copyMem(cv(a[0], "copy dst"), cv(a[1], "copy src"), n); return a[0]; }
  case B_MEMSET: { u64 n = cv(a[2], "set size"), p = cv(a[0], "set dst"); if (n) { Obj *o = access(p, n, true); Val b = truncV(a[1], 8); if (!b.e) { memset(o->d + (p - o->base), (int)b.c, n); if (o->s) memset((void *)(o->s + (p - o->base)), 0, n * 8); } else for (u64 i = 0; i < n; i++) setByte(o, p - o->base + i, b.e); } return a[0]; }
  case B_MEMCMP: { u64 n = cv(a[2], "cmp size"); if (!n) return Val((u64)0); return mkE(cmpMem(cv(a[0], "cmp a"), cv(a[1], "cmp b"), n)); }
  case B_STRLEN: { u64 p = cv(a[0], "strlen"), n = 0; while (true) { Obj *o = access(p + n, 1, false); Expr *e = byteE(o, p + n - o->base); if (!decide(xNot(xEq(e, K(0, 8))))) return Val(n); n++; } }
  case B_MALLOC: return Val(newObj(allocSize(a[0]), 16, true)->base);
  case B_CALLOC: { Val n = binV(Instruction::Mul, a[0], a[1], 64); return Val(newObj(allocSize(n), 16, true)->base); }
  case B_REALLOC: return reallocObj(cv(a[0], "realloc"), allocSize(a[1]), 16);
  case B_PMEMALIGN: { Obj *o = newObj(allocSize(a[2]), cv(a[1], "align"), true); storeC(cv(a[0], "memalign"), Val(o->base), ty(PointerType::get(M->getContext(), 0))); return Val((u64)0); }
  case B_ALIGNALLOC: return Val(newObj(allocSize(a[1]), cv(a[0], "align"), true)->base);
  case B_FREE: { u64 p = cv(a[0], "free"); if (p) { Obj *o = findObj(p); if (!o || o->base != p || o->freed || !o->heap) violation("memory", "bad free"); o->freed = true; g_objs.erase(o->base); if (g_last == o) g_last = 0; ::free(o->d); ::free(o->s); delete o; } return Val((u64)0); }
  case B_PANIC: if (g_panic_ok == 1) path_done("panic"); violation("panic", dem(x.callee->getName().str()) + panicLoc(a));
  case B_ALLOCERR: violation("alloc", "allocation failure");
  case B_ABORT: case B_TRAP: violation("abort", "abort");
  case B_EXIT: { u64 c = cv(a[0], "exit"); INC(exits); if (g_exit_ok == 0) violation("exit", "process exits with code " + std::to_string((int)c)); path_done("exit"); }
  case B_WRITE: case B_OPEN: case B_READ: case B_CLOSE: case B_STAT: case B_FSTAT: case B_LSEEK: case B_UNLINK: case B_MKDIR: case B_RMDIR: case B_GETCWD: case B_RENAME: case B_FTRUNC: { Val r = fsCall(x.builtin, a); return t->w < 64 ? truncV(r, t->w) : r; }
  case B_NOENT: { Val r = fail(2); return t->w == 64 && x.callee->getName() == "realpath" ? Val((u64)0) : r; }
  case B_SYSCONF: return Val((u64)4096);
  case B_STRERR: { u64 p = cv(a[1], "strerror"); Obj *o = access(p, 4, true); memcpy(o->d + (p - o->base), "err", 4); return Val((u64)0); }
  case B_SYM_ONEXIT: g_on_exit = cv(a[0], "hook"); return Val((u64)0);
  case B_WRITEV: { u64 p = cv(a[1], "writev"), n = cv(a[2], "writev"), s = 0; for (u64 i = 0; i < n; i++) s += loadC(p + i * 16 + 8, ty(Type::getInt64Ty(M->getContext()))).c; return Val(s); }
  case B_SYM_BYTES: { u64 p = cv(a[0], "sym"), n = cv(a[1], "sym"); if (n) { Obj *o = access(p, n, true); In in; in.kind = 0; in.first = g_nsym; in.n = n; in.c = 0; for (u64 i = 0; i < n; i++) { setByte(o, p - o->base + i, mk(E_SYM, 8, 0, 0, 0, g_nsym++)); g_model.push_back(0); } g_in.push_back(in); } else g_in.push_back(In{0, "", 0, 0, 0}); return Val((u64)0); }
  case B_SYM_ASSUME: { if (!a[0].e) { if (!(a[0].c & 1)) { INC(assumed_out); end_process(); } return Val((u64)0); }
      Expr *c = xExtract(a[0].e, 0, 1); if (isK(c)) { if (!c->v) { INC(assumed_out); end_process(); } return Val((u64)0); } newStamp(); if (ev(c)) { addPC(c); return Val((u64)0); }
      std::vector<u8> m; if (!solve(c, &m)) { INC(assumed_out); end_process(); } addPC(c); g_model = m; return Val((u64)0); }
  case B_SYM_CHECK: { INC(obligations); if (!a[0].e) { if (!(a[0].c & 1)) violation("check", rdstr(cv(a[1], "m"), cv(a[2], "m"))); return Val((u64)0); }
      Expr *c = xExtract(a[0].e, 0, 1); if (!decide(c)) violation("check", rdstr(cv(a[1], "m"), cv(a[2], "m"))); return Val((u64)0); }
  case B_SYM_CHOICE: { u64 n = cv(a[0], "choice"); if (n == 0) { INC(assumed_out); end_process(); } u64 v = nway(n); g_in.push_back(In{1, "", 0, 0, v}); return Val(v); }
  case B_SYM_PARAM: return Val(g_param);
  case B_SYM_CONCRETE: return Val(cv(a[0], "concretize"));
  case B_SYM_FAIL: violation("fail", rdstr(cv(a[0], "m"), cv(a[1], "m")));
  case B_SYM_REACH: { u64 k = cv(a[0], "reach"); if (k < 256) INC(reach[k]); if (g_reach.size() < 4000) g_reach += (g_reach.empty() ? "" : ",") + std::to_string(k); return Val((u64)0); }
  case B_SYM_LOG: { g_log += rdstr(cv(a[0], "m"), cv(a[1], "m")); g_log += ";"; return Val((u64)0); }
  case B_SYM_EXITOK: g_exit_ok = (int)cv(a[0], "e") & 1; return Val((u64)0);
  case B_SYM_PANICOK: g_panic_ok = (int)cv(a[0], "e") & 1; return Val((u64)0);
  case B_OVF: {
    TypeI *et = t->el[0]; if (et->kind) engine_error("vector overflow op"); unsigned w = et->w; Expr *p = toE(a[0], w), *q = toE(a[1], w), *r, *o;
    bool sg = false; EK k = E_ADD; switch (x.sub) { case Intrinsic::uadd_with_overflow: k = E_ADD; break; case Intrinsic::usub_with_overflow: k = E_SUB; break; case Intrinsic::umul_with_overflow: k = E_MUL; break; case Intrinsic::sadd_with_overflow: k = E_ADD; sg = true; break; case Intrinsic::ssub_with_overflow: k = E_SUB; sg = true; break; case Intrinsic::smul_with_overflow: k = E_MUL; sg = true; break; }
    r = xBin(k, p, q);
    if (!sg && k == E_ADD) o = (ubound(p) <= maskw(w) - ubound(q) || false) && w < 128 ? (ubound(p) + ubound(q) <= maskw(w) ? K(0, 1) : xBin(E_ULT, r, p)) : xBin(E_ULT, r, p);
    else if (!sg && k == E_SUB) o = xBin(E_ULT, p, q);
    else { unsigned ww = k == E_MUL ? 2 * w : w + 1; if (ww > 128) { // 128-bit product of 64-bit values is exact; wider is not needed
        if (isK(p) && isK(q)) engine_error("wide multiply"); engine_error("wide overflow op"); }
      if (!sg) { u128 up = ubound(p), uq = ubound(q); if (w <= 64 && up * uq <= maskw(w)) o = K(0, 1); else { Expr *f = xBin(k, xZext(p, ww), xZext(q, ww)); o = xNot(xEq(xExtract(f, w, ww - w), K(0, ww - w))); } }
      else { Expr *f = xBin(k, xSext(p, ww), xSext(q, ww)); o = xNot(xEq(f, xSext(r, ww))); } }
    return mkAgg({mkE(r), mkE(o)}); }
  case B_SAT: return mapVec(t, a, [&](const std::vector<Val> &v, TypeI *et) { unsigned w = et->w; Expr *p = toE(v[0], w), *q = toE(v[1], w);
      if (x.sub == Intrinsic::uadd_sat) { Expr *r = xBin(E_ADD, p, q); return mkE(xIte(xBin(E_ULT, r, p), K(~(u128)0, w), r)); }
      if (x.sub == Intrinsic::usub_sat) return mkE(xIte(xBin(E_ULT, p, q), K(0, w), xBin(E_SUB, p, q)));
      Expr *f = xBin(x.sub == Intrinsic::sadd_sat ? E_ADD : E_SUB, xSext(p, w + 1), xSext(q, w + 1)); Expr *r = xExtract(f, 0, w);
      return mkE(xIte(xEq(f, xSext(r, w + 1)), r, xIte(xExtract(f, w, 1), K((u128)1 << (w - 1), w), K(((u128)1 << (w - 1)) - 1, w)))); });
  case B_MINMAX: return mapVec(t, a, [&](const std::vector<Val> &v, TypeI *et) { unsigned w = et->w; Expr *p = toE(v[0], w), *q = toE(v[1], w); Expr *lt = (x.sub == Intrinsic::umin || x.sub == Intrinsic::umax) ? xBin(E_ULT, p, q) : xBin(E_SLT, p, q); bool mn = x.sub == Intrinsic::umin || x.sub == Intrinsic::smin; return mkE(mn ? xIte(lt, p, q) : xIte(lt, q, p)); });
  case B_CTPOP: return mapVec(t, a, [&](const std::vector<Val> &v, TypeI *et) { if (!v[0].e) return Val((u64)__builtin_popcountll(v[0].c)); return mkE(pop(v[0].e, et->w)); });
  case B_CTLZ: return mapVec(t, a, [&](const std::vector<Val> &v, TypeI *et) { return mkE(clz(toE(v[0], et->w), et->w)); });
  case B_CTTZ: return mapVec(t, a, [&](const std::vector<Val> &v, TypeI *et) { if (!v[0].e) return Val(v[0].c ? (u64)__builtin_ctzll(v[0].c) : (u64)et->w); return mkE(ctz(v[0].e, et->w)); });
  case B_BSWAP: return mapVec(t, a, [&](const std::vector<Val> &v, TypeI *et) { Expr *p = toE(v[0], et->w), *r = 0; for (unsigned i = 0; i < et->w; i += 8) { Expr *b = xExtract(p, i, 8); r = r ? xConcat(r, b) : b; } return mkE(r); });
  case B_BITREV: return mapVec(t, a, [&](const std::vector<Val> &v, TypeI *et) { Expr *p = toE(v[0], et->w), *r = 0; for (unsigned i = 0; i < et->w; i++) { Expr *b = xExtract(p, i, 1); r = r ? xConcat(r, b) : b; } return mkE(r); });
  case B_FSH: return mapVec(t, a, [&](const std::vector<Val> &v, TypeI *et) { unsigned w = et->w; u64 s = cv(v[2], "fsh") % w; if (s == 0) return x.sub == Intrinsic::fshl ? v[0] : v[1]; Expr *c = xConcat(toE(v[0], w), toE(v[1], w)); return mkE(x.sub == Intrinsic::fshl ? xExtract(c, w - s, w) : xExtract(c, s, w)); });
  case B_ABS: return mapVec(t, a, [&](const std::vector<Val> &v, TypeI *et) { Expr *p = toE(v[0], et->w); return mkE(xIte(xBin(E_SLT, p, K(0, et->w)), xBin(E_SUB, K(0, et->w), p), p)); });
  case B_PMOVMSKB: { Expr *r = 0; for (auto &l : a[0].g->v) { Expr *b = xExtract(toE(l, 8), 7, 1); r = r ? xConcat(b, r) : b; } return mkE(xZext(r, 32)); }
  case B_LOADREL: { u64 p = cv(a[0], "rel"), o = cv(a[1], "rel"); Val v = loadC(p + o, ty(Type::getInt32Ty(M->getContext()))); return Val(p + (u64)(i64)(int32_t)v.c); }
  case B_VREDADD: case B_VREDOR: case B_VREDAND: { Val r = a[0].g->v[0]; for (size_t i = 1; i < a[0].g->v.size(); i++) r = binV(x.builtin == B_VREDADD ? Instruction::Add : x.builtin == B_VREDOR ? Instruction::Or : Instruction::And, r, a[0].g->v[i], t->w); return r; }
  case B_FABS: return mapVec(t, a, [&](const std::vector<Val> &v, TypeI *et) { unsigned w = et->w; return mkE(xBin(E_AND, toE(v[0], w), K(maskw(w - 1), w))); });
  case B_COPYSIGN: { unsigned w = t->w; return mkE(xConcat(xExtract(toE(a[1], w), w - 1, 1), xExtract(toE(a[0], w), 0, w - 1))); }
  case B_FSAT: { if (a[0].e) engine_error("symbolic float cast"); double d = asD(a[0].c, x.t2->w); unsigned w = t->w; if (d != d) return Val((u64)0);
      if (x.sub == Intrinsic::fptoui_sat) { double mx = (double)maskw(w); u64 r = d <= 0 ? 0 : d >= mx ? (u64)maskw(w) : (u64)d; return Val(r); }
      double hi = (double)(((u64)1 << (w - 1)) - 1), lo = -(double)((u64)1 << (w - 1)); i64 r = d >= hi ? (i64)(((u64)1 << (w - 1)) - 1) : d <= lo ? (i64)(-(i128)((u128)1 << (w - 1))) : (i64)d; return truncV(Val((u64)r), w); }
  case B_RET0: return Val((u64)0);
  case B_RETNEG1: return Val(~0ull);
  case B_ERRNO: return Val(errnoAddr());
  case B_CLOCK: { u64 p = cv(a[1], "clk"); TypeI *i64t = ty(Type::getInt64Ty(M->getContext())); storeC(p, Val(g_clock), i64t); storeC(p + 8, Val((u64)0), i64t); g_clock++; return Val((u64)0); }
  case B_SYSCALL: { if (x.callee->getName() == "syscall" && !a[0].e && a[0].c == 318 /* getrandom */) return a[2]; if (x.callee->getName() == "getrandom") return a[1]; if (!a[0].e && (a[0].c == 332 || a[0].c == 326)) return fail(38); engine_error("syscall"); }
  }
  engine_error("call to external function " + x.callee->getName().str());
}
static const Val &get(Frame &f, const Opd &o) { return o.r >= 0 ? f.r[o.r] : o.k; }
static void jump(Frame &f, const Edge &e) {
  if (!e.phis.empty()) { if (e.phis.size() == 1) { Val v = get(f, e.phis[0].second); f.r[e.phis[0].first] = v; } else { std::vector<Val> t; t.reserve(e.phis.size()); for (auto &p : e.phis) t.push_back(get(f, p.second)); for (size_t i = 0; i < t.size(); i++) f.r[e.phis[i].first] = t[i]; } }
  f.bb = e.bb; f.ip = 0;
}
// Decimal text of a symbolic integer: rendered with the value of the current model (only messages contain such text).
// This keeps error formatting from splitting paths by digit; harnesses that compare such text run with --exact-fmt.
static bool g_exact_fmt = false;
static unsigned fmtWidth(const std::string &n) {
  if (n.compare(0, 15, "_ZN4core3fmt3nu") || n.find("..fmt..D") == std::string::npos) return 0;
  size_t p = n.find("$u20$for$u20$"); if (p == std::string::npos) return 0; p += 13; char k = n[p]; if (k != 'u' && k != 'i') return 0;
  if (!n.compare(p + 1, 4, "size")) return 8; int w = atoi(n.c_str() + p + 1); return w == 8 || w == 16 || w == 32 || w == 64 ? w / 8 : 0;
}
static void enter(Function *fn, std::vector<Val> args, Ins *call) {
  FnI *fi = getFn(fn); if (!fi->ready) compileFn(fi); if (fi->id < (int)sizeof S->cov) S->cov[fi->id] = 1;
  if (fi->fmtw && !g_exact_fmt && args.size() && !args[0].e) { Obj *o = findObj(args[0].c); u64 off = o ? args[0].c - o->base : 0; bool sym = false;
    if (o && o->s && off + fi->fmtw <= o->size) for (unsigned i = 0; i < fi->fmtw; i++) sym |= o->s[off + i] != 0;
    if (sym) { newStamp(); Obj *n = newObj(fi->fmtw, 8, false); for (unsigned i = 0; i < fi->fmtw; i++) n->d[i] = (u8)ev(byteE(o, off + i)); args[0] = Val(n->base); } }
  if (g_stack.size() > 3000) violation("recursion", "call depth limit");
  g_stack.emplace_back(); Frame &f = g_stack.back(); f.f = fi; f.bb = 0; f.ip = 0; f.call = call; f.r.resize(fi->nregs); size_t n = fn->arg_size(); for (size_t i = 0; i < n && i < args.size(); i++) f.r[i] = args[i];
}
static void run() {
  while (!g_stack.empty()) {
    Frame &f = g_stack.back(); Ins &x = f.f->bbs[f.bb][f.ip];
    if ((++g_steps & 0xffff) == 0) { checkBudget(); flush(); if (g_steps > g_max_steps) violation("steps", "step limit exceeded (possible non-termination)"); }
    switch (x.op) {
    case O_NOP: f.ip++; break;
    case O_BIN: { const Val &a = get(f, x.o[0]), &b = get(f, x.o[1]); 
      if (x.t->kind == 0) {
        if (b.e && (x.sub == Instruction::UDiv || x.sub == Instruction::URem || x.sub == Instruction::SDiv || x.sub == Instruction::SRem)) { if (decide(xEq(b.e, K(0, x.t->w)))) violation("div", "division by zero"); }
        f.r[x.dst] = binV(x.sub, a, b, x.t->w);
      } else f.r[x.dst] = mapVec(x.t, {a, b}, [&](const std::vector<Val> &v, TypeI *t) { return binV(x.sub, v[0], v[1], t->w); }); f.ip++; break; }
    case O_ICMP: { const Val &a = get(f, x.o[0]), &b = get(f, x.o[1]); if (x.t2->kind == 0) f.r[x.dst] = icmpV(x.sub, a, b, x.t2->w); else f.r[x.dst] = mapVec(x.t2, {a, b}, [&](const std::vector<Val> &v, TypeI *t) { return icmpV(x.sub, v[0], v[1], t->w); }); f.ip++; break; }
    case O_FCMP: { const Val &a = get(f, x.o[0]), &b = get(f, x.o[1]); if (x.t2->kind) engine_error("vector fcmp"); unsigned w = x.t2->w; if (!a.e && !b.e) f.r[x.dst] = Val((u64)fcmp_eval(x.sub, w, a.c, b.c)); else { Expr *p = toE(a, w), *q = toE(b, w); f.r[x.dst] = x.sub == 0 ? Val((u64)0) : x.sub == 15 ? Val((u64)1) : mkE(mk(E_FCMP, 1, p, q, 0, x.sub)); } f.ip++; break; }
    case O_FBIN: { const Val &a = get(f, x.o[0]), &b = get(f, x.o[1]); if (x.t->kind || a.e || b.e) engine_error("symbolic float arithmetic"); double p = asD(a.c, x.t->w), q = asD(b.c, x.t->w), r = 0; switch (x.sub) { case Instruction::FAdd: r = p + q; break; case Instruction::FSub: r = p - q; break; case Instruction::FMul: r = p * q; break; case Instruction::FDiv: r = p / q; break; default: engine_error("frem"); } f.r[x.dst] = Val(fromD(r, x.t->w)); f.ip++; break; }
    case O_FNEG: { const Val &a = get(f, x.o[0]); unsigned w = x.t->w; f.r[x.dst] = mkE(xBin(E_XOR, toE(a, w), K((u128)1 << (w - 1), w))); f.ip++; break; }
    case O_LOAD: { const Val &p = get(f, x.o[0]); if (!p.e) f.r[x.dst] = loadC(p.c, x.t); else { Val v = loadS(p.e, x.t, x.sub); g_stack.back().r[x.dst] = v; } f.ip++; break; }
    case O_STORE: { Val v = get(f, x.o[0]); const Val &p = get(f, x.o[1]); u64 a = p.e ? concretize(p.e, "store address") : p.c; storeC(a, v, x.t2); f.ip++; break; }
    case O_GEP: { const Val &b = get(f, x.o[0]); u64 off = x.idx.back(); size_t n = x.o.size() - 1; bool sym = b.e; for (size_t i = 0; i < n; i++) if (get(f, x.o[i + 1]).e) sym = true;
      if (!sym) { u64 a = b.c + off; for (size_t i = 0; i < n; i++) { u64 v = get(f, x.o[i + 1]).c, w = x.idx[2 * i + 1]; if (w < 64) v = (u64)((i64)(v << (64 - w)) >> (64 - w)); a += v * x.idx[2 * i]; } f.r[x.dst] = Val(a); }
      else { Expr *a = xBin(E_ADD, toE(b, 64), K(off, 64)); for (size_t i = 0; i < n; i++) { u64 w = x.idx[2 * i + 1]; Expr *v = toE(get(f, x.o[i + 1]), w); v = w < 64 ? xSext(v, 64) : v; a = xBin(E_ADD, a, xBin(E_MUL, v, K(x.idx[2 * i], 64))); } f.r[x.dst] = mkE(a); }
      f.ip++; break; }
    case O_ALLOCA: { u64 n = cv(get(f, x.o[0]), "alloca"); Obj *o = newObj(n * x.idx[0], x.idx[1], false); f.allocas.push_back(o->base); f.r[x.dst] = Val(o->base); f.ip++; break; }
    case O_BR: jump(f, x.e0); break;
    case O_CBR: { const Val &c = get(f, x.o[0]); bool v = c.e ? decide(c.e) : (c.c & 1); jump(f, v ? x.e0 : x.e1); break; }
    case O_SWITCH: { const Val &c = get(f, x.o[0]); unsigned w = x.t2->w;
      if (!c.e) { const Edge *e = &x.e0; for (auto &k : x.cases) if ((u64)k.first == c.c) { e = &k.second; break; } jump(f, *e); }
      else { // group the cases by destination
        std::vector<std::pair<int, Expr *>> grp; std::vector<size_t> rep;
        for (size_t i = 0; i < x.cases.size(); i++) { Expr *q = xEq(c.e, K(x.cases[i].first, w)); bool fnd = false; if (x.cases[i].second.phis.empty()) for (size_t g = 0; g < grp.size(); g++) if (grp[g].first == x.cases[i].second.bb && x.cases[rep[g]].second.phis.empty()) { grp[g].second = xBin(E_OR, grp[g].second, q); fnd = true; break; } if (!fnd) { grp.push_back({x.cases[i].second.bb, q}); rep.push_back(i); } }
        const Edge *e = &x.e0; for (size_t g = 0; g < grp.size(); g++) if (decide(grp[g].second)) { e = &x.cases[rep[g]].second; break; }
        jump(f, *e); }
      break; }
    case O_RET: { Val v; bool has = !x.o.empty(); if (has) v = get(f, x.o[0]); for (u64 a : f.allocas) { auto it = g_objs.find(a); if (it != g_objs.end()) { if (g_last == it->second) g_last = 0; ::free(it->second->d); ::free(it->second->s); delete it->second; g_objs.erase(it); } }
      Ins *call = f.call; g_stack.pop_back(); if (g_stack.empty()) path_done(); Frame &p = g_stack.back(); if (call) { if (call->dst >= 0 && has) p.r[call->dst] = v; if (call->e0.bb >= 0) jump(p, call->e0); else p.ip++; } break; }
    case O_CALL: {
      std::vector<Val> a; a.reserve(x.o.size()); for (auto &o : x.o) a.push_back(get(f, o)); Function *callee = x.callee;
      if (!callee && x.builtin == 0) { u64 p = cv(a.back(), "function pointer"); a.pop_back(); auto it = g_faddr.find(p); if (it == g_faddr.end()) violation("memory", "call through a bad function pointer"); callee = it->second;
        int b = classify(callee); if (b) { Ins y = x; y.callee = callee; y.builtin = b; y.sub = callee->getIntrinsicID(); Val v = builtin(y, a); Frame &ff = g_stack.back(); if (x.dst >= 0) ff.r[x.dst] = v; if (x.e0.bb >= 0) jump(ff, x.e0); else ff.ip++; break; } }
      else if (x.builtin == B_EXIT && g_on_exit) { u64 h = g_on_exit; g_on_exit = 0; INC(exits); g_stack.clear(); enter(g_faddr[h], {Val((u64)1)}, nullptr); break; }
      else if (x.builtin == B_SYM_ARGS) { Function *af = 0; for (auto &q : *M) if (q.getName().contains("ARGV_INIT_ARRAY") && !q.isDeclaration()) af = &q; if (!af) engine_error("no argument initialiser"); f.ip++; enter(af, {a[0], a[1], Val((u64)0)}, nullptr); break; }
      else if (x.builtin) { Val v = builtin(x, a); Frame &ff = g_stack.back(); if (x.dst >= 0) ff.r[x.dst] = v; if (x.e0.bb >= 0) jump(ff, x.e0); else ff.ip++; break; }
      enter(callee, std::move(a), &x); break; }
    case O_SELECT: { Val c = get(f, x.o[0]); if (x.sub & 2) { const Val &a = get(f, x.o[1]), &b = get(f, x.o[2]); std::vector<Val> r; for (size_t i = 0; i < c.g->v.size(); i++) r.push_back(selectV(c.g->v[i], a.g->v[i], b.g->v[i], x.t->el[i])); f.r[x.dst] = mkAgg(std::move(r)); f.ip++; break; }
      if (!c.e) { Val v = get(f, (c.c & 1) ? x.o[1] : x.o[2]); f.r[x.dst] = v; } else { const Val &a = get(f, x.o[1]), &b = get(f, x.o[2]); bool same = !a.g && !b.g && a.e == b.e && a.c == b.c; if (same) { Val v = a; f.r[x.dst] = v; } else if ((x.sub & 1) || x.t->kind) { bool d = decide(c.e); Frame &ff = g_stack.back(); Val v = get(ff, d ? x.o[1] : x.o[2]); ff.r[x.dst] = v; } else f.r[x.dst] = selectV(c, a, b, x.t); } f.ip++; break; }
    case O_CAST: { Val v = castV(x.sub, get(f, x.o[0]), x.t2, x.t); f.r[x.dst] = v; f.ip++; break; }
    case O_EXTRACT: { Val v = get(f, x.o[0]); for (u64 k : x.idx) { Val n = v.g->v[k]; v = n; } f.r[x.dst] = v; f.ip++; break; }
    case O_INSERT: { Val a = get(f, x.o[0]); Val v = get(f, x.o[1]); std::function<Val(const Val &, size_t)> ins = [&](const Val &g, size_t d) { if (d == x.idx.size()) return v; std::vector<Val> c = g.g->v; c[x.idx[d]] = ins(c[x.idx[d]], d + 1); return mkAgg(std::move(c)); }; f.r[x.dst] = ins(a, 0); f.ip++; break; }
    case O_EXTELT: { Val a = get(f, x.o[0]); u64 k = cv(get(f, x.o[1]), "lane"); f.r[x.dst] = a.g->v.at(k); f.ip++; break; }
    case O_INSELT: { Val a = get(f, x.o[0]); u64 k = cv(get(f, x.o[2]), "lane"); std::vector<Val> c = a.g->v; c.at(k) = get(f, x.o[1]); f.r[x.dst] = mkAgg(std::move(c)); f.ip++; break; }
    case O_SHUF: { Val a = get(f, x.o[0]), b = get(f, x.o[1]); size_t n = a.g->v.size(); std::vector<Val> c; for (u64 k : x.idx) c.push_back((i64)k < 0 ? zeroOf(x.t->el[0]) : k < n ? a.g->v[k] : b.g->v[k - n]); f.r[x.dst] = mkAgg(std::move(c)); f.ip++; break; }
    case O_FREEZE: { Val v = get(f, x.o[0]); f.r[x.dst] = v; f.ip++; break; }
    case O_ICMPXCHG: { u64 p = cv(get(f, x.o[0]), "cmpxchg"); Val old = loadC(p, x.t2); Val e = icmpV(CmpInst::ICMP_EQ, old, get(f, x.o[1]), x.t2->w); bool ok = e.e ? decide(e.e) : e.c; if (ok) storeC(p, get(f, x.o[2]), x.t2); f.r[x.dst] = mkAgg({old, Val((u64)ok)}); f.ip++; break; }
    case O_RMW: { u64 p = cv(get(f, x.o[0]), "rmw"); Val old = loadC(p, x.t), v = get(f, x.o[1]), nv; unsigned w = x.t->w;
      switch (x.sub) { case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = binV(Instruction::Add, old, v, w); break; case AtomicRMWInst::Sub: nv = binV(Instruction::Sub, old, v, w); break; case AtomicRMWInst::And: nv = binV(Instruction::And, old, v, w); break; case AtomicRMWInst::Or: nv = binV(Instruction::Or, old, v, w); break; case AtomicRMWInst::Xor: nv = binV(Instruction::Xor, old, v, w); break;
        case AtomicRMWInst::UMax: nv = mkE(xIte(xBin(E_ULT, toE(old, w), toE(v, w)), toE(v, w), toE(old, w))); break; case AtomicRMWInst::UMin: nv = mkE(xIte(xBin(E_ULT, toE(old, w), toE(v, w)), toE(old, w), toE(v, w))); break; default: engine_error("rmw"); }
      storeC(p, nv, x.t); f.r[x.dst] = old; f.ip++; break; }
    case O_UNREACH: violation("unreachable", "unreachable code reached");
    case O_UNSUP: { std::string s; raw_string_ostream os(s); x.src->print(os); engine_error("unsupported instruction " + s); }
    }
  }
  path_done();
}

static void storeConst(u64 a, Constant *c) {
  Type *t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { if (cd->getElementByteSize() == 1) { Obj *o = findObj(a); StringRef r = cd->getRawDataValues(); memcpy(o->d + (a - o->base), r.data(), r.size()); return; } }
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeConst(a + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { u64 s = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) storeConst(a + i * s, c->getAggregateElement(i)); return; }
  storeC(a, constVal(c), ty(t));
}
static std::string g_entry, g_json; static double g_t0;
static void finish_root() {
  FILE *f = fopen(g_json.c_str(), "w"); double wall = now() - g_t0;
  fprintf(f, "{\"entry\":\"%s\",\"paths\":%llu,\"assumed_out\":%llu,\"violations\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"instructions\":%llu,\"forks\":%llu,\"timeouts\":%llu,\"errors\":%llu,\"error\":\"%s\",\"exits\":%llu,\"max_path_steps\":%llu,\"max_symbolic_bytes\":%llu,\"obligations\":%llu,\"wall_s\":%.3f,\"reach\":[", g_entry.c_str(), (unsigned long long)S->paths, (unsigned long long)S->assumed_out, (unsigned long long)S->violations, (unsigned long long)S->queries, (unsigned long long)S->sat, (unsigned long long)S->unsat, (unsigned long long)S->unknown, S->solver_ns / 1e9, (unsigned long long)S->insts, (unsigned long long)S->forks, (unsigned long long)S->timeouts, (unsigned long long)S->errors, jesc(S->errmsg).c_str(), (unsigned long long)S->exits, (unsigned long long)S->maxsteps, (unsigned long long)S->symbytes_max, (unsigned long long)S->obligations, wall);
  bool first = true; for (int i = 0; i < 256; i++) if (S->reach[i]) { fprintf(f, "%s[%d,%llu]", first ? "" : ",", i, (unsigned long long)S->reach[i]); first = false; }
  fprintf(f, "],\"functions\":["); first = true;
  for (auto &p : g_fns) if (p.second->id < (int)sizeof S->cov && S->cov[p.second->id]) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(dem(p.second->name)).c_str()); first = false; }
  fprintf(f, "]}\n"); fclose(f);
}
static void onterm(int) { S->stop = 1; }
int main(int argc, char **argv) {
  std::string bc, out; 
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--exact-fmt") g_exact_fmt = true; else if (a == "--entry") g_entry = nx(); else if (a == "--json") g_json = nx(); else if (a == "--viol") out = nx(); else if (a == "--samples") g_smp_fd = open(nx().c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644); else if (a == "--time") g_deadline = now() + atof(nx().c_str()); else if (a == "--param") g_param = atoll(nx().c_str()); else if (a == "--paths") g_max_paths = atoll(nx().c_str()); else if (a == "--workers") g_max_workers = atoll(nx().c_str()); else if (a == "--steps") g_max_steps = atoll(nx().c_str()); else if (a == "--alloc") g_alloc_limit = atoll(nx().c_str()); else if (a == "--maxviol") g_max_viol = atoll(nx().c_str()); else bc = a; }
  g_t0 = now(); signal(SIGTERM, onterm);
  S = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); S->workers = 1;
  g_out_fd = open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
  LLVMContext ctx; SMDiagnostic err; auto m = parseIRFile(bc, err, ctx); if (!m) { err.print("symrs", errs()); return 3; }
  M = m.get();
  // this LLVM reads the code of an older one with 128-bit integers aligned to 16 bytes, where rustc 1.75 laid them out at 8
  std::string layout = M->getDataLayoutStr(); size_t wide = layout.find("-i128:128"); if (wide != std::string::npos) { layout.erase(wide, 9); M->setDataLayout(layout); }
  static DataLayout dl = M->getDataLayout(); DL = &dl;
  Function *entry = M->getFunction(g_entry); if (!entry || entry->isDeclaration()) { fprintf(stderr, "no entry %s\n", g_entry.c_str()); return 3; }
  u64 fa = 0x10000; for (auto &f : *M) { getFn(&f); if (f.hasExternalWeakLinkage() && f.isDeclaration()) { g_gaddr[&f] = 0; continue; } g_gaddr[&f] = fa; g_faddr[fa] = &f; fa += 16; }
  for (auto &g : M->globals()) { if (g.hasExternalWeakLinkage() && !g.hasInitializer()) { g_gaddr[&g] = 0; continue; } Obj *o = newObj(DL->getTypeAllocSize(g.getValueType()), g.getAlign() ? g.getAlign()->value() : 16, false); g_gaddr[&g] = o->base; }
  for (auto &g : M->globals()) if (g.hasInitializer()) storeConst(g_gaddr[&g], g.getInitializer());
  for (auto &g : M->globals()) if (g.isConstant() && g_gaddr[&g]) findObj(g_gaddr[&g])->ro = true;
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); Z = Z3_mk_context(cfg); g_s8 = Z3_mk_bv_sort(Z, 8); g_sol = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, g_sol);
  { Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), 120000); Z3_solver_set_params(Z, g_sol, p); }
  enter(entry, {}, nullptr); run();
}
