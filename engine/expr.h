// Hash-consed bit-vector expressions with simplification, evaluation and translation to Z3.
#pragma once
#include <z3.h>
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

enum EK : uint8_t {
  E_CONST, E_SYM, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_SHL, E_LSHR, E_ASHR,
  E_AND, E_OR, E_XOR, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT, E_ITE, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_NOT,
  E_FCMP
};
struct Expr {
  EK k; uint16_t w; u32 aux; u32 id; Expr *a, *b, *c; u128 v;
  Z3_ast zb, zv; u64 stamp; u128 ev; u32 depth;
};
static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sx(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 m = (u128)1 << (w - 1); v &= maskw(w); return (i128)((v ^ m) - m); }

struct KeyHash { size_t operator()(const Expr *e) const {
  u64 h = e->k * 1315423911u + e->w * 2654435761u + e->aux * 97531u;
  auto mix = [&](u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); };
  mix((u64)e->a); mix((u64)e->b); mix((u64)e->c); mix((u64)e->v); mix((u64)(e->v >> 64)); return h; } };
struct KeyEq { bool operator()(const Expr *x, const Expr *y) const {
  return x->k == y->k && x->w == y->w && x->aux == y->aux && x->a == y->a && x->b == y->b && x->c == y->c && x->v == y->v; } };
static std::unordered_set<Expr *, KeyHash, KeyEq> g_exprs;
static u32 g_expr_id = 0;

static Expr *mk(EK k, unsigned w, Expr *a = 0, Expr *b = 0, Expr *c = 0, u32 aux = 0, u128 v = 0) {
  Expr t; memset((void *)&t, 0, sizeof t); t.k = k; t.w = w; t.a = a; t.b = b; t.c = c; t.aux = aux; t.v = v;
  auto it = g_exprs.find(&t);
  if (it != g_exprs.end()) return *it;
  Expr *e = (Expr *)malloc(sizeof(Expr)); memcpy((void *)e, (void *)&t, sizeof t); e->id = ++g_expr_id;
  u32 d = 0; if (a) d = std::max(d, a->depth); if (b) d = std::max(d, b->depth); if (c) d = std::max(d, c->depth); e->depth = d + 1;
  g_exprs.insert(e); return e;
}
static Expr *K(u128 v, unsigned w) { return mk(E_CONST, w, 0, 0, 0, 0, v & maskw(w)); }
static inline bool isK(Expr *e) { return e->k == E_CONST; }
static inline bool isK(Expr *e, u128 v) { return e->k == E_CONST && e->v == (v & maskw(e->w)); }

static Expr *xEq(Expr *a, Expr *b);
static Expr *xNot(Expr *a);
static Expr *xIte(Expr *c, Expr *a, Expr *b);
static Expr *xExtract(Expr *e, unsigned lo, unsigned w);
static Expr *xConcat(Expr *hi, Expr *lo);
static Expr *xZext(Expr *e, unsigned w);

static u128 evalBin(EK k, unsigned w, u128 a, u128 b) {
  u128 m = maskw(w);
  switch (k) {
  case E_ADD: return (a + b) & m; case E_SUB: return (a - b) & m; case E_MUL: return (a * b) & m;
  case E_UDIV: return b ? (a / b) & m : m; case E_UREM: return b ? (a % b) & m : a;
  case E_SDIV: { i128 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
  case E_SREM: { i128 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
  case E_SHL: return b >= w ? 0 : (a << (unsigned)b) & m; case E_LSHR: return b >= w ? 0 : (a & m) >> (unsigned)b;
  case E_ASHR: { i128 x = sx(a, w); return (u128)(x >> (b >= w ? w - 1 : (unsigned)b)) & m; }
  case E_AND: return a & b; case E_OR: return a | b; case E_XOR: return a ^ b;
  case E_EQ: return a == b; case E_ULT: return a < b; case E_ULE: return a <= b;
  case E_SLT: return sx(a, w) < sx(b, w); case E_SLE: return sx(a, w) <= sx(b, w);
  default: abort();
  }
}
// cheap upper bound on the unsigned value
static u128 ubound(Expr *e, int d = 0) {
  if (isK(e)) return e->v;
  u128 m = maskw(e->w); if (d > 12) return m;
  switch (e->k) {
  case E_ZEXT: return ubound(e->a, d + 1);
  case E_ITE: return std::max(ubound(e->b, d + 1), ubound(e->c, d + 1));
  case E_AND: return std::min(ubound(e->a, d + 1), ubound(e->b, d + 1));
  case E_LSHR: if (isK(e->b)) return ubound(e->a, d + 1) >> (unsigned)std::min<u128>(e->b->v, 127); return m;
  case E_ADD: { u128 x = ubound(e->a, d + 1), y = ubound(e->b, d + 1); if (x < (m >> 1) && y < (m >> 1)) return x + y; return m; }
  case E_MUL: { u128 x = ubound(e->a, d + 1), y = ubound(e->b, d + 1); if (x < ((u128)1 << 60) && y < ((u128)1 << 60) && x * y <= m) return x * y; return m; }
  case E_CONCAT: return (ubound(e->a, d + 1) << e->b->w) | ubound(e->b, d + 1);
  case E_UREM: if (isK(e->b) && e->b->v) return e->b->v - 1; return m;
  case E_UDIV: if (isK(e->b) && e->b->v) return ubound(e->a, d + 1) / e->b->v; return m;
  default: return m;
  }
}
static Expr *xBin(EK k, Expr *a, Expr *b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "width mismatch %d %d %d\n", k, a->w, b->w); abort(); }
  if (k == E_EQ) return xEq(a, b);
  bool cmp = k >= E_EQ && k <= E_SLE; unsigned rw = cmp ? 1 : w;
  if (isK(a) && isK(b)) return K(evalBin(k, w, a->v, b->v), rw);
  if ((k == E_ADD || k == E_MUL || k == E_AND || k == E_OR || k == E_XOR) && isK(a)) std::swap(a, b);
  u128 m = maskw(w);
  switch (k) {
  case E_ADD: if (isK(b, 0)) return a;
    if (isK(b) && a->k == E_ADD && isK(a->b)) return xBin(E_ADD, a->a, K(a->b->v + b->v, w)); break;
  case E_SUB: if (a == b) return K(0, w); if (isK(b)) return xBin(E_ADD, a, K(-b->v, w));
    if (a->k == E_ADD && a->a == b) return a->b; if (a->k == E_ADD && a->b == b) return a->a;
    if (a->k == E_ADD && isK(a->b) && b->k == E_ADD && isK(b->b) && a->a == b->a) return K(a->b->v - b->b->v, w); break;
  case E_MUL: if (isK(b, 0)) return b; if (isK(b, 1)) return a;
    if (isK(b) && (b->v & (b->v - 1)) == 0) { unsigned s = 0; while (!((b->v >> s) & 1)) s++; return xBin(E_SHL, a, K(s, w)); } break;
  case E_UDIV: if (isK(b, 1)) return a;
    if (isK(b) && b->v && (b->v & (b->v - 1)) == 0) { unsigned s = 0; while (!((b->v >> s) & 1)) s++; return xBin(E_LSHR, a, K(s, w)); } break;
  case E_UREM: if (isK(b) && b->v && (b->v & (b->v - 1)) == 0) return xBin(E_AND, a, K(b->v - 1, w));
    if (isK(b) && ubound(a) < b->v) return a; break;
  case E_SHL: if (isK(b)) { if (b->v == 0) return a; if (b->v >= w) return K(0, w); unsigned s = (unsigned)b->v; return xConcat(xExtract(a, 0, w - s), K(0, s)); } break;
  case E_LSHR: if (isK(b)) { if (b->v == 0) return a; if (b->v >= w) return K(0, w); unsigned s = (unsigned)b->v; return xZext(xExtract(a, s, w - s), w); } break;
  case E_ASHR: if (isK(b, 0)) return a;
    if (isK(b) && a->k == E_ZEXT) return xBin(E_LSHR, a, b); break;
  case E_AND: if (a == b) return a; if (isK(b, 0)) return b; if (isK(b, m)) return a;
    if (isK(b)) {
      if (((b->v + 1) & b->v) == 0) { unsigned n = 0; while ((b->v >> n) & 1) n++; return xZext(xExtract(a, 0, n), w); }
      if (a->k == E_AND && isK(a->b)) return xBin(E_AND, a->a, K(a->b->v & b->v, w));
      if (a->k == E_ZEXT) { return xZext(xBin(E_AND, a->a, K(b->v, a->a->w)), w); }
    }
    if (w == 1 && (a == xNot(b))) return K(0, 1);
    break;
  case E_OR: if (a == b) return a; if (isK(b, 0)) return a; if (isK(b, m)) return b;
    for (int i = 0; i < 2; i++) { Expr *x = i ? b : a, *y = i ? a : b; // zext(lo) | concat(hi, 0)
      if (x->k == E_ZEXT && y->k == E_CONCAT && isK(y->b, 0) && y->b->w >= x->a->w) return xConcat(y->a, xZext(x->a, y->b->w));
      if (x->k == E_ZEXT && y->k == E_ZEXT) { unsigned mw = std::max(x->a->w, y->a->w); if (mw < w) return xZext(xBin(E_OR, xZext(x->a, mw), xZext(y->a, mw)), w); }
      if (x->k == E_ZEXT && y->k == E_ZEXT) continue; }
    if (w == 1 && (a == xNot(b))) return K(1, 1);
    break;
  case E_XOR: if (a == b) return K(0, w); if (isK(b, 0)) return a; if (w == 1 && isK(b, 1)) return xNot(a); break;
  case E_ULT: if (a == b) return K(0, 1); if (isK(b, 0)) return b->w == 1 ? K(0, 1) : K(0, 1); if (isK(b, 1)) return xEq(a, K(0, w));
    if (isK(a) && a->v == m) return K(0, 1);
    if (isK(b) && ubound(a) < b->v) return K(1, 1); if (isK(a) && ubound(b) <= a->v) return K(0, 1);
    if (a->k == E_ZEXT && isK(b)) { if (b->v > maskw(a->a->w)) return K(1, 1); return xBin(E_ULT, a->a, K(b->v, a->a->w)); }
    if (b->k == E_ZEXT && isK(a)) { if (a->v >= maskw(b->a->w)) return K(0, 1); return xBin(E_ULT, K(a->v, b->a->w), b->a); }
    if (a->k == E_ZEXT && b->k == E_ZEXT && a->a->w == b->a->w) return xBin(E_ULT, a->a, b->a);
    break;
  case E_ULE: return xNot(xBin(E_ULT, b, a));
  case E_SLT: if (a == b) return K(0, 1);
    if (a->k == E_ZEXT && b->k == E_ZEXT) return xBin(E_ULT, a, b);
    if (a->k == E_ZEXT && isK(b)) { if (sx(b->v, w) <= 0) return K(0, 1); return xBin(E_ULT, a, b); }
    if (b->k == E_ZEXT && isK(a)) { if (sx(a->v, w) < 0) return K(1, 1); return xBin(E_ULT, a, b); }
    break;
  case E_SLE: return xNot(xBin(E_SLT, b, a));
  default: break;
  }
  // push operations through an ITE with constant arms when the other side is constant
  if (isK(b) && a->k == E_ITE && isK(a->b) && isK(a->c)) return xIte(a->a, xBin(k, a->b, b), xBin(k, a->c, b));
  if (isK(a) && b->k == E_ITE && isK(b->b) && isK(b->c)) return xIte(b->a, xBin(k, a, b->b), xBin(k, a, b->c));
  if ((k == E_ADD || k == E_MUL || k == E_AND || k == E_OR || k == E_XOR) && !isK(b) && a->id > b->id) std::swap(a, b);
  return mk(k, rw, a, b);
}
static Expr *xNot(Expr *a) {
  if (isK(a)) return K(~a->v, a->w);
  if (a->k == E_NOT) return a->a;
  return mk(E_NOT, a->w, a);
}
static Expr *xEq(Expr *a, Expr *b) {
  if (a == b) return K(1, 1);
  if (isK(a)) std::swap(a, b);
  if (isK(a) && isK(b)) return K(a->v == b->v, 1);
  unsigned w = a->w;
  if (isK(b)) {
    if (w == 1) return b->v ? a : xNot(a);
    if (a->k == E_ZEXT) { if (b->v > maskw(a->a->w)) return K(0, 1); return xEq(a->a, K(b->v, a->a->w)); }
    if (a->k == E_SEXT) { unsigned n = a->a->w; u128 lo = b->v & maskw(n); if (((u128)sx(lo, n) & maskw(w)) != b->v) return K(0, 1); return xEq(a->a, K(lo, n)); }
    if (a->k == E_CONCAT) return xBin(E_AND, xEq(a->a, K(b->v >> a->b->w, a->a->w)), xEq(a->b, K(b->v, a->b->w)));
    if (a->k == E_ITE && (isK(a->b) || isK(a->c))) return xIte(a->a, xEq(a->b, b), xEq(a->c, b));
    if (a->k == E_ADD && isK(a->b)) return xEq(a->a, K(b->v - a->b->v, w));
    if (a->k == E_XOR && isK(a->b)) return xEq(a->a, K(b->v ^ a->b->v, w));
    if (a->k == E_NOT) return xEq(a->a, K(~b->v, w));
    if (ubound(a) < b->v) return K(0, 1);
  } else {
    if (w == 1) return xNot(xBin(E_XOR, a, b));
    if (a->k == E_ZEXT && b->k == E_ZEXT && a->a->w == b->a->w) return xEq(a->a, b->a);
    if (a->k == E_CONCAT && b->k == E_CONCAT && a->b->w == b->b->w) return xBin(E_AND, xEq(a->a, b->a), xEq(a->b, b->b));
  }
  if (a->id > b->id && !isK(b)) std::swap(a, b);
  return mk(E_EQ, 1, a, b);
}
static Expr *xIte(Expr *c, Expr *a, Expr *b) {
  if (isK(c)) return c->v ? a : b;
  if (a == b) return a;
  if (c->k == E_NOT) return xIte(c->a, b, a);
  if (a->w == 1) {
    if (isK(a, 1) && isK(b, 0)) return c; if (isK(a, 0) && isK(b, 1)) return xNot(c);
    if (isK(a, 1)) return xBin(E_OR, c, b); if (isK(a, 0)) return xBin(E_AND, xNot(c), b);
    if (isK(b, 0)) return xBin(E_AND, c, a); if (isK(b, 1)) return xBin(E_OR, xNot(c), a);
  }
  if (a->k == E_ITE && a->a == c) return xIte(c, a->b, b);
  if (b->k == E_ITE && b->a == c) return xIte(c, a, b->c);
  return mk(E_ITE, a->w, c, a, b);
}
static Expr *xZext(Expr *e, unsigned w) {
  if (e->w == w) return e;
  if (e->w > w) return xExtract(e, 0, w);
  if (isK(e)) return K(e->v, w);
  if (e->k == E_ZEXT) return xZext(e->a, w);
  if (e->k == E_ITE && isK(e->b) && isK(e->c)) return xIte(e->a, K(e->b->v, w), K(e->c->v, w));
  return mk(E_ZEXT, w, e);
}
static Expr *xSext(Expr *e, unsigned w) {
  if (e->w == w) return e;
  if (isK(e)) return K((u128)sx(e->v, e->w), w);
  if (e->k == E_SEXT) return xSext(e->a, w);
  if (e->k == E_ZEXT) return xZext(e->a, w);
  if (e->k == E_ITE && isK(e->b) && isK(e->c)) return xIte(e->a, K((u128)sx(e->b->v, e->w), w), K((u128)sx(e->c->v, e->w), w));
  return mk(E_SEXT, w, e);
}
static Expr *xExtract(Expr *e, unsigned lo, unsigned w) {
  if (lo == 0 && w == e->w) return e;
  if (isK(e)) return K(e->v >> lo, w);
  switch (e->k) {
  case E_EXTRACT: return xExtract(e->a, lo + e->aux, w);
  case E_CONCAT: { unsigned n = e->b->w; if (lo + w <= n) return xExtract(e->b, lo, w); if (lo >= n) return xExtract(e->a, lo - n, w);
    return xConcat(xExtract(e->a, 0, lo + w - n), xExtract(e->b, lo, n - lo)); }
  case E_ZEXT: { unsigned n = e->a->w; if (lo >= n) return K(0, w); if (lo + w <= n) return xExtract(e->a, lo, w); return xZext(xExtract(e->a, lo, n - lo), w); }
  case E_SEXT: { unsigned n = e->a->w; if (lo + w <= n) return xExtract(e->a, lo, w); if (lo < n) return xSext(xExtract(e->a, lo, n - lo), w); return xSext(xExtract(e->a, n - 1, 1), w); }
  case E_AND: case E_OR: case E_XOR: return xBin(e->k, xExtract(e->a, lo, w), xExtract(e->b, lo, w));
  case E_NOT: return xNot(xExtract(e->a, lo, w));
  case E_ITE: if ((isK(e->b) || e->b->k == E_ITE || e->b->k == E_ZEXT || e->b->k == E_CONCAT) || (isK(e->c) || e->c->k == E_ITE || e->c->k == E_ZEXT || e->c->k == E_CONCAT)) return xIte(e->a, xExtract(e->b, lo, w), xExtract(e->c, lo, w)); break;
  case E_ADD: case E_SUB: case E_MUL: if (lo == 0) return xBin(e->k, xExtract(e->a, 0, w), xExtract(e->b, 0, w)); break;
  default: break;
  }
  return mk(E_EXTRACT, w, e, 0, 0, lo);
}
static Expr *xConcat(Expr *hi, Expr *lo) {
  unsigned w = hi->w + lo->w;
  if (isK(hi) && isK(lo)) return K((hi->v << lo->w) | lo->v, w);
  if (isK(hi, 0)) return xZext(lo, w);
  if (hi->k == E_ZEXT) return xZext(xConcat(hi->a, lo), w);
  if (hi->k == E_EXTRACT && lo->k == E_EXTRACT && hi->a == lo->a && lo->aux + lo->w == hi->aux) return xExtract(hi->a, lo->aux, w);
  // concat(x, concat(y, z)) with x,y adjacent
  if (lo->k == E_CONCAT && hi->k == E_EXTRACT && lo->a->k == E_EXTRACT && lo->a->a == hi->a && lo->a->aux + lo->a->w == hi->aux) return xConcat(xExtract(hi->a, lo->a->aux, hi->w + lo->a->w), lo->b);
  // concat(extract(x,n..), x') where x' is the low part kept whole by a narrower expression
  if (hi->k == E_SEXT) {}
  if (isK(hi) && lo->k == E_CONCAT && isK(lo->a)) return xConcat(xConcat(hi, lo->a), lo->b);
  if (hi->k == E_CONCAT && isK(hi->b) && isK(lo)) return xConcat(hi->a, xConcat(hi->b, lo));
  return mk(E_CONCAT, w, hi, lo);
}

// ---- evaluation under an assignment of the symbolic bytes
static std::vector<u8> g_model; static u64 g_stamp = 1;
static bool fcmp_eval(unsigned pred, unsigned w, u64 a, u64 b);
static u128 ev(Expr *e) {
  if (e->k == E_CONST) return e->v;
  if (e->stamp == g_stamp) return e->ev;
  u128 r;
  switch (e->k) {
  case E_SYM: r = e->aux < g_model.size() ? g_model[e->aux] : 0; break;
  case E_CONCAT: r = (ev(e->a) << e->b->w) | ev(e->b); break;
  case E_EXTRACT: r = (ev(e->a) >> e->aux) & maskw(e->w); break;
  case E_ZEXT: r = ev(e->a); break;
  case E_SEXT: r = (u128)sx(ev(e->a), e->a->w) & maskw(e->w); break;
  case E_ITE: r = ev(e->a) ? ev(e->b) : ev(e->c); break;
  case E_NOT: r = ~ev(e->a) & maskw(e->w); break;
  case E_FCMP: r = fcmp_eval(e->aux, e->a->w, (u64)ev(e->a), (u64)ev(e->b)); break;
  default: r = evalBin(e->k, e->a->w, ev(e->a), ev(e->b));
  }
  e->stamp = g_stamp; e->ev = r; return r;
}
static bool fcmp_eval(unsigned p, unsigned w, u64 a, u64 b) {
  double x, y; if (w == 32) { float f; u32 t = (u32)a; memcpy(&f, &t, 4); x = f; t = (u32)b; memcpy(&f, &t, 4); y = f; } else { memcpy(&x, &a, 8); memcpy(&y, &b, 8); }
  bool un = x != x || y != y; bool r = false;
  switch (p & 7) { case 1: r = x == y; break; case 2: r = x > y; break; case 3: r = x >= y; break; case 4: r = x < y; break; case 5: r = x <= y; break; case 6: r = !un && x != y; break; case 7: r = !un; break; }
  if (p & 8) r = r || un; return r;
}

// ---- Z3
static Z3_context Z; static std::vector<Z3_ast> g_symz; static Z3_sort g_s8;
static Z3_ast zV(Expr *e); static Z3_ast zB(Expr *e);
static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(Z, w); }
static Z3_ast zK(u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(Z, (u64)v, bvs(w));
  return Z3_mk_concat(Z, Z3_mk_unsigned_int64(Z, (u64)(v >> 64), bvs(w - 64)), Z3_mk_unsigned_int64(Z, (u64)v, bvs(64)));
}
static bool boolish(Expr *e) { if (e->w != 1) return false; switch (e->k) { case E_CONST: case E_AND: case E_OR: case E_XOR: case E_NOT: case E_ITE: case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE: case E_FCMP: return true; default: return false; } }
static Z3_ast zB(Expr *e) {
  if (e->zb) return e->zb; Z3_ast r;
  if (!boolish(e)) r = Z3_mk_eq(Z, zV(e), zK(1, 1));
  else switch (e->k) {
    case E_CONST: r = e->v ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
    case E_AND: { Z3_ast t[2] = {zB(e->a), zB(e->b)}; r = Z3_mk_and(Z, 2, t); break; }
    case E_OR: { Z3_ast t[2] = {zB(e->a), zB(e->b)}; r = Z3_mk_or(Z, 2, t); break; }
    case E_XOR: r = Z3_mk_xor(Z, zB(e->a), zB(e->b)); break;
    case E_NOT: r = Z3_mk_not(Z, zB(e->a)); break;
    case E_ITE: r = Z3_mk_ite(Z, zB(e->a), zB(e->b), zB(e->c)); break;
    case E_EQ: r = Z3_mk_eq(Z, zV(e->a), zV(e->b)); break;
    case E_ULT: r = Z3_mk_bvult(Z, zV(e->a), zV(e->b)); break;
    case E_ULE: r = Z3_mk_bvule(Z, zV(e->a), zV(e->b)); break;
    case E_SLT: r = Z3_mk_bvslt(Z, zV(e->a), zV(e->b)); break;
    case E_SLE: r = Z3_mk_bvsle(Z, zV(e->a), zV(e->b)); break;
    case E_FCMP: {
      Z3_sort s = e->a->w == 32 ? Z3_mk_fpa_sort_32(Z) : Z3_mk_fpa_sort_64(Z);
      Z3_ast x = Z3_mk_fpa_to_fp_bv(Z, zV(e->a), s), y = Z3_mk_fpa_to_fp_bv(Z, zV(e->b), s);
      Z3_ast t[2] = {Z3_mk_fpa_is_nan(Z, x), Z3_mk_fpa_is_nan(Z, y)}; Z3_ast un = Z3_mk_or(Z, 2, t); Z3_ast q = Z3_mk_false(Z);
      switch (e->aux & 7) { case 1: q = Z3_mk_fpa_eq(Z, x, y); break; case 2: q = Z3_mk_fpa_gt(Z, x, y); break; case 3: q = Z3_mk_fpa_geq(Z, x, y); break;
        case 4: q = Z3_mk_fpa_lt(Z, x, y); break; case 5: q = Z3_mk_fpa_leq(Z, x, y); break;
        case 6: { Z3_ast u[2] = {Z3_mk_not(Z, un), Z3_mk_not(Z, Z3_mk_fpa_eq(Z, x, y))}; q = Z3_mk_and(Z, 2, u); break; } case 7: q = Z3_mk_not(Z, un); break; }
      if (e->aux & 8) { Z3_ast u[2] = {q, un}; q = Z3_mk_or(Z, 2, u); } r = q; break; }
    default: fprintf(stderr, "zB %d\n", e->k); abort();
    }
  return e->zb = r;
}
static Z3_ast zV(Expr *e) {
  if (e->zv) return e->zv; Z3_ast r;
  if (e->k == E_CONST) r = zK(e->v, e->w);
  else if (boolish(e)) r = Z3_mk_ite(Z, zB(e), zK(1, 1), zK(0, 1));
  else switch (e->k) {
    case E_SYM: { while (g_symz.size() <= e->aux) { char nm[32]; snprintf(nm, 32, "b%zu", g_symz.size()); g_symz.push_back(Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), g_s8)); } r = g_symz[e->aux]; break; }
    case E_ADD: r = Z3_mk_bvadd(Z, zV(e->a), zV(e->b)); break; case E_SUB: r = Z3_mk_bvsub(Z, zV(e->a), zV(e->b)); break;
    case E_MUL: r = Z3_mk_bvmul(Z, zV(e->a), zV(e->b)); break; case E_UDIV: r = Z3_mk_bvudiv(Z, zV(e->a), zV(e->b)); break;
    case E_SDIV: r = Z3_mk_bvsdiv(Z, zV(e->a), zV(e->b)); break; case E_UREM: r = Z3_mk_bvurem(Z, zV(e->a), zV(e->b)); break;
    case E_SREM: r = Z3_mk_bvsrem(Z, zV(e->a), zV(e->b)); break; case E_SHL: r = Z3_mk_bvshl(Z, zV(e->a), zV(e->b)); break;
    case E_LSHR: r = Z3_mk_bvlshr(Z, zV(e->a), zV(e->b)); break; case E_ASHR: r = Z3_mk_bvashr(Z, zV(e->a), zV(e->b)); break;
    case E_AND: r = Z3_mk_bvand(Z, zV(e->a), zV(e->b)); break; case E_OR: r = Z3_mk_bvor(Z, zV(e->a), zV(e->b)); break;
    case E_XOR: r = Z3_mk_bvxor(Z, zV(e->a), zV(e->b)); break; case E_NOT: r = Z3_mk_bvnot(Z, zV(e->a)); break;
    case E_CONCAT: r = Z3_mk_concat(Z, zV(e->a), zV(e->b)); break; case E_EXTRACT: r = Z3_mk_extract(Z, e->aux + e->w - 1, e->aux, zV(e->a)); break;
    case E_ZEXT: r = Z3_mk_zero_ext(Z, e->w - e->a->w, zV(e->a)); break; case E_SEXT: r = Z3_mk_sign_ext(Z, e->w - e->a->w, zV(e->a)); break;
    case E_ITE: r = Z3_mk_ite(Z, zB(e->a), zV(e->b), zV(e->c)); break;
    default: fprintf(stderr, "zV %d\n", e->k); abort();
    }
  return e->zv = r;
}
