// Hash-consed bit-vector expressions (width 1..64) with simplification,
// evaluation under a model, and translation to Z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <z3.h>

enum Op : uint8_t {
  X_CONST, X_VAR, X_ADD, X_SUB, X_MUL, X_UDIV, X_SDIV, X_UREM, X_SREM,
  X_AND, X_OR, X_XOR, X_SHL, X_LSHR, X_ASHR, X_EQ, X_ULT, X_ULE, X_SLT, X_SLE,
  X_ITE, X_ZEXT, X_SEXT, X_EXTRACT, X_CONCAT, X_UMULO
};

struct Expr {
  Op op; uint8_t w; uint32_t id; uint32_t hash;
  Expr *a, *b, *c; uint64_t k;
  Z3_ast z;
  std::vector<uint32_t> *vars; // sorted var ids
  uint64_t stamp, val;
  Expr *next;
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sxt(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t) v;
  uint64_t m = 1ull << (w - 1);
  v &= maskw(w);
  return (int64_t) ((v ^ m) - m);
}

static inline uint64_t evalOp(Op op, unsigned w, unsigned aw, uint64_t a, uint64_t b, uint64_t c, uint64_t k, unsigned bw) {
  uint64_t m = maskw(w);
  switch (op) {
    case X_ADD: return (a + b) & m;
    case X_SUB: return (a - b) & m;
    case X_MUL: return (a * b) & m;
    case X_UDIV: return b ? (a / b) & m : m;
    case X_SDIV: {
      int64_t x = sxt(a, w), y = sxt(b, w);
      if (!y) return (x < 0 ? 1 : m) & m;
      if (y == -1) return (uint64_t) (0 - (uint64_t) x) & m;
      return (uint64_t) (x / y) & m; }
    case X_UREM: return b ? (a % b) & m : a;
    case X_SREM: {
      int64_t x = sxt(a, w), y = sxt(b, w);
      if (!y) return a & m;
      if (y == -1) return 0;
      return (uint64_t) (x % y) & m; }
    case X_AND: return a & b;
    case X_OR: return a | b;
    case X_XOR: return (a ^ b) & m;
    case X_SHL: return b >= w ? 0 : (a << b) & m;
    case X_LSHR: return b >= w ? 0 : (a & m) >> b;
    case X_ASHR: { int64_t x = sxt(a, w); return (uint64_t) (b >= w ? (x < 0 ? -1 : 0) : (x >> b)) & m; }
    case X_EQ: return a == b;
    case X_ULT: return a < b;
    case X_ULE: return a <= b;
    case X_SLT: return sxt(a, aw) < sxt(b, aw);
    case X_SLE: return sxt(a, aw) <= sxt(b, aw);
    case X_ITE: return a ? b : c;
    case X_ZEXT: return a;
    case X_SEXT: return (uint64_t) sxt(a, aw) & m;
    case X_EXTRACT: return (a >> k) & m;
    case X_CONCAT: return ((a << bw) | b) & m;
    case X_UMULO: { unsigned __int128 p = (unsigned __int128) a * b; return (p >> aw) != 0; }
    default: abort();
  }
}

struct ExprCtx {
  Z3_context z3 = nullptr;
  std::vector<Expr *> table;
  uint64_t count = 0;
  uint64_t stamp = 1;
  std::vector<std::vector<uint32_t> *> varsets;
  static const size_t TBITS = 20;
  ExprCtx() : table(1u << TBITS, nullptr) {}

  static uint32_t hsh(Op op, unsigned w, Expr *a, Expr *b, Expr *c, uint64_t k) {
    uint64_t h = op * 0x9E3779B97F4A7C15ull + w;
    h = (h ^ (a ? a->id : 0x1234)) * 0xff51afd7ed558ccdull;
    h = (h ^ (h >> 31) ^ (b ? b->id : 0x5678)) * 0xc4ceb9fe1a85ec53ull;
    h = (h ^ (h >> 29) ^ (c ? c->id : 0x9abc)) * 0x9E3779B97F4A7C15ull;
    h = (h ^ (h >> 33) ^ k) * 0xff51afd7ed558ccdull;
    return (uint32_t) (h ^ (h >> 32));
  }
  Expr *cons(Op op, unsigned w, Expr *a, Expr *b, Expr *c, uint64_t k) {
    uint32_t h = hsh(op, w, a, b, c, k);
    Expr **slot = &table[h & ((1u << TBITS) - 1)];
    for (Expr *e = *slot; e; e = e->next)
      if (e->hash == h && e->op == op && e->w == w && e->a == a && e->b == b && e->c == c && e->k == k) return e;
    Expr *e = new Expr();
    e->op = op; e->w = w; e->a = a; e->b = b; e->c = c; e->k = k; e->hash = h;
    e->id = (uint32_t) ++count; e->z = nullptr; e->stamp = 0;
    e->next = *slot; *slot = e;
    if (op == X_VAR) { e->vars = new std::vector<uint32_t>{(uint32_t) k}; }
    else if (op == X_CONST) { static std::vector<uint32_t> empty; e->vars = &empty; }
    else {
      std::vector<uint32_t> *v = a->vars;
      for (Expr *o : {b, c}) if (o && o->vars != v && !o->vars->empty()) {
        if (v->empty()) { v = o->vars; continue; }
        if (std::includes(v->begin(), v->end(), o->vars->begin(), o->vars->end())) continue;
        std::vector<uint32_t> r;
        std::set_union(v->begin(), v->end(), o->vars->begin(), o->vars->end(), std::back_inserter(r));
        v = new std::vector<uint32_t>(std::move(r));
      }
      e->vars = v;
    }
    return e;
  }
  Expr *C(uint64_t v, unsigned w) { return cons(X_CONST, w, 0, 0, 0, v & maskw(w)); }
  Expr *var(uint32_t id, unsigned w) { return cons(X_VAR, w, 0, 0, 0, id); }
  Expr *lnot(Expr *a) { return mk(X_XOR, 1, a, C(1, 1)); }

  Expr *mk(Op op, unsigned w, Expr *a, Expr *b = nullptr, Expr *c = nullptr, uint64_t k = 0) {
    bool ac = a->op == X_CONST, bc = b && b->op == X_CONST, cc = c && c->op == X_CONST;
    if (ac && (!b || bc) && (!c || cc))
      return C(evalOp(op, w, a->w, a->k, b ? b->k : 0, c ? c->k : 0, k, b ? b->w : 0), w);
    switch (op) {
      case X_ADD:
        if (ac) { std::swap(a, b); std::swap(ac, bc); }
        if (bc && b->k == 0) return a;
        if (bc && a->op == X_ADD && a->b->op == X_CONST) return mk(X_ADD, w, a->a, C(a->b->k + b->k, w));
        if (!bc && a->id > b->id && !(a->op == X_ADD && a->b->op == X_CONST)) std::swap(a, b);
        if (!bc && a->op == X_ADD && a->b->op == X_CONST) return mk(X_ADD, w, mk(X_ADD, w, a->a, b), a->b);
        if (!bc && b->op == X_ADD && b->b->op == X_CONST) return mk(X_ADD, w, mk(X_ADD, w, a, b->a), b->b);
        if (a->op == X_SUB && a->b == b) return a->a;
        if (b->op == X_SUB && b->b == a) return b->a;
        break;
      case X_SUB:
        if (a == b) return C(0, w);
        if (bc) return mk(X_ADD, w, a, C(0 - b->k, w));
        if (a->op == X_ADD && a->b->op == X_CONST) return mk(X_ADD, w, mk(X_SUB, w, a->a, b), a->b);
        if (b->op == X_ADD && b->b->op == X_CONST) return mk(X_ADD, w, mk(X_SUB, w, a, b->a), C(0 - b->b->k, w));
        if (a->op == X_ADD && a->a == b) return a->b;
        if (a->op == X_ADD && a->b == b) return a->a;
        break;
      case X_MUL:
        if (ac) { std::swap(a, b); std::swap(ac, bc); }
        if (bc && b->k == 0) return b;
        if (bc && b->k == 1) return a;
        if (bc && (b->k & (b->k - 1)) == 0) return mk(X_SHL, w, a, C(__builtin_ctzll(b->k), w));
        break;
      case X_AND:
        if (ac) { std::swap(a, b); std::swap(ac, bc); }
        if (a == b) return a;
        if (bc && b->k == 0) return b;
        if (bc && b->k == maskw(w)) return a;
        if (bc && a->op == X_ZEXT && (maskw(a->a->w) & ~b->k) == 0) return a;
        if (bc && a->op == X_AND && a->b->op == X_CONST) return mk(X_AND, w, a->a, C(a->b->k & b->k, w));
        if (bc && a->op == X_OR && a->b->op == X_CONST && (a->b->k & b->k) == 0) return mk(X_AND, w, a->a, b);
        if (!bc && a->id > b->id) std::swap(a, b);
        break;
      case X_OR:
        if (ac) { std::swap(a, b); std::swap(ac, bc); }
        if (a == b) return a;
        if (bc && b->k == 0) return a;
        if (bc && b->k == maskw(w)) return b;
        if (!bc && a->id > b->id) std::swap(a, b);
        break;
      case X_XOR:
        if (ac) { std::swap(a, b); std::swap(ac, bc); }
        if (a == b) return C(0, w);
        if (bc && b->k == 0) return a;
        if (bc && a->op == X_XOR && a->b->op == X_CONST) return mk(X_XOR, w, a->a, C(a->b->k ^ b->k, w));
        if (w == 1 && bc) { // not
          if (a->op == X_ULT) return mk(X_ULE, 1, a->b, a->a);
          if (a->op == X_ULE) return mk(X_ULT, 1, a->b, a->a);
          if (a->op == X_SLT) return mk(X_SLE, 1, a->b, a->a);
          if (a->op == X_SLE) return mk(X_SLT, 1, a->b, a->a);
        }
        if (!bc && a->id > b->id) std::swap(a, b);
        break;
      case X_SHL: case X_LSHR: case X_ASHR:
        if (bc && b->k == 0) return a;
        if (op != X_ASHR && bc && b->k >= w) return C(0, w);
        if (op == X_LSHR && bc && a->op == X_SHL && a->b == b) return mk(X_AND, w, a->a, C(maskw(w) >> b->k, w));
        break;
      case X_EQ:
        if (a == b) return C(1, 1);
        if (ac) { std::swap(a, b); std::swap(ac, bc); }
        if (bc) {
          if (a->w == 1) return b->k ? a : lnot(a);
          if (a->op == X_ZEXT) return (b->k & ~maskw(a->a->w)) ? C(0, 1) : mk(X_EQ, 1, a->a, C(b->k, a->a->w));
          if (a->op == X_ADD && a->b->op == X_CONST) return mk(X_EQ, 1, a->a, C(b->k - a->b->k, a->w));
          if (a->op == X_ITE && a->b->op == X_CONST && a->c->op == X_CONST) {
            bool p = a->b->k == b->k, q = a->c->k == b->k;
            if (p && q) return C(1, 1);
            if (p) return a->a;
            if (q) return lnot(a->a);
            return C(0, 1);
          }
          if (a->op == X_CONCAT) {
            Expr *hi = mk(X_EQ, 1, a->a, C(b->k >> a->b->w, a->a->w));
            Expr *lo = mk(X_EQ, 1, a->b, C(b->k, a->b->w));
            return mk(X_AND, 1, hi, lo);
          }
        }
        if (a->op == X_ADD && b->op == X_ADD && a->b == b->b) return mk(X_EQ, 1, a->a, b->a);
        if (!bc && a->id > b->id) std::swap(a, b);
        break;
      case X_ULT:
        if (a == b) return C(0, 1);
        if (bc && b->k == 0) return C(0, 1);
        if (bc && b->k == 1) return mk(X_EQ, 1, a, C(0, a->w));
        if (ac && a->k == maskw(a->w)) return C(0, 1);
        if (bc && a->op == X_ZEXT) { if (b->k > maskw(a->a->w)) return C(1, 1); return mk(X_ULT, 1, a->a, C(b->k, a->a->w)); }
        if (ac && b->op == X_ZEXT) { if (a->k >= maskw(b->a->w)) return C(0, 1); return mk(X_ULT, 1, C(a->k, b->a->w), b->a); }
        break;
      case X_ULE:
        if (a == b) return C(1, 1);
        if (ac && a->k == 0) return C(1, 1);
        if (bc && b->k == maskw(a->w)) return C(1, 1);
        if (bc && a->op == X_ZEXT) { if (b->k >= maskw(a->a->w)) return C(1, 1); return mk(X_ULE, 1, a->a, C(b->k, a->a->w)); }
        if (ac && b->op == X_ZEXT) { if (a->k > maskw(b->a->w)) return C(0, 1); return mk(X_ULE, 1, C(a->k, b->a->w), b->a); }
        break;
      case X_SLT: if (a == b) return C(0, 1); break;
      case X_SLE: if (a == b) return C(1, 1); break;
      case X_ITE:
        if (ac) return a->k ? b : c;
        if (b == c) return b;
        if (w == 1 && bc && cc) return b->k ? a : lnot(a);
        break;
      case X_ZEXT:
        if (w == a->w) return a;
        if (a->op == X_ZEXT) return mk(X_ZEXT, w, a->a);
        break;
      case X_SEXT:
        if (w == a->w) return a;
        break;
      case X_EXTRACT:
        if (w == a->w && k == 0) return a;
        if (a->op == X_EXTRACT) return mk(X_EXTRACT, w, a->a, nullptr, nullptr, a->k + k);
        if (a->op == X_CONCAT) {
          if (k >= a->b->w) return mk(X_EXTRACT, w, a->a, nullptr, nullptr, k - a->b->w);
          if (k + w <= a->b->w) return mk(X_EXTRACT, w, a->b, nullptr, nullptr, k);
        }
        if (a->op == X_ZEXT || a->op == X_SEXT) {
          if (k + w <= a->a->w) return mk(X_EXTRACT, w, a->a, nullptr, nullptr, k);
          if (a->op == X_ZEXT && k >= a->a->w) return C(0, w);
          if (k == 0) return mk(a->op, w, a->a);
        }
        if (a->op == X_ITE && a->b->op == X_CONST && a->c->op == X_CONST)
          return mk(X_ITE, w, a->a, mk(X_EXTRACT, w, a->b, nullptr, nullptr, k), mk(X_EXTRACT, w, a->c, nullptr, nullptr, k));
        if (k == 0 && (a->op == X_ADD || a->op == X_SUB || a->op == X_AND || a->op == X_OR || a->op == X_XOR))
          return mk(a->op, w, mk(X_EXTRACT, w, a->a), mk(X_EXTRACT, w, a->b));
        break;
      case X_CONCAT:
        if (ac && a->k == 0) return mk(X_ZEXT, w, b);
        if (a->op == X_EXTRACT && b->op == X_EXTRACT && a->a == b->a && a->k == b->k + b->w)
          return mk(X_EXTRACT, w, a->a, nullptr, nullptr, b->k);
        break;
      default: break;
    }
    return cons(op, w, a, b, c, k);
  }

  uint64_t eval(Expr *e, const std::vector<uint64_t> &model) { stamp++; return evalRec(e, model); }
  uint64_t evalRec(Expr *e, const std::vector<uint64_t> &m) {
    if (e->op == X_CONST) return e->k;
    if (e->op == X_VAR) return e->k < m.size() ? m[e->k] & maskw(e->w) : 0;
    if (e->stamp == stamp) return e->val;
    uint64_t r;
    if (e->op == X_ITE) r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->c, m);
    else {
      uint64_t a = evalRec(e->a, m), b = e->b ? evalRec(e->b, m) : 0;
      r = evalOp(e->op, e->w, e->a->w, a, b, 0, e->k, e->b ? e->b->w : 0);
    }
    e->stamp = stamp; e->val = r;
    return r;
  }

  Z3_ast toBool(Expr *e) { // w==1 expr -> Z3 Bool
    return Z3_mk_eq(z3, toZ3(e), toZ3(C(1, 1)));
  }
  Z3_ast toZ3(Expr *e) {
    if (e->z) return e->z;
    Z3_ast r, A = e->a ? toZ3(e->a) : nullptr, B = e->b ? toZ3(e->b) : nullptr;
    auto b2v = [&](Z3_ast b) { return Z3_mk_ite(z3, b, toZ3(C(1, 1)), toZ3(C(0, 1))); };
    switch (e->op) {
      case X_CONST: r = Z3_mk_unsigned_int64(z3, e->k, Z3_mk_bv_sort(z3, e->w)); break;
      case X_VAR: { char nm[32]; snprintf(nm, sizeof nm, "v%u_%u", (unsigned) e->k, e->w);
        r = Z3_mk_const(z3, Z3_mk_string_symbol(z3, nm), Z3_mk_bv_sort(z3, e->w)); break; }
      case X_ADD: r = Z3_mk_bvadd(z3, A, B); break;
      case X_SUB: r = Z3_mk_bvsub(z3, A, B); break;
      case X_MUL: r = Z3_mk_bvmul(z3, A, B); break;
      case X_UDIV: r = Z3_mk_bvudiv(z3, A, B); break;
      case X_SDIV: r = Z3_mk_bvsdiv(z3, A, B); break;
      case X_UREM: r = Z3_mk_bvurem(z3, A, B); break;
      case X_SREM: r = Z3_mk_bvsrem(z3, A, B); break;
      case X_AND: r = Z3_mk_bvand(z3, A, B); break;
      case X_OR: r = Z3_mk_bvor(z3, A, B); break;
      case X_XOR: r = Z3_mk_bvxor(z3, A, B); break;
      case X_SHL: r = Z3_mk_bvshl(z3, A, B); break;
      case X_LSHR: r = Z3_mk_bvlshr(z3, A, B); break;
      case X_ASHR: r = Z3_mk_bvashr(z3, A, B); break;
      case X_EQ: r = b2v(Z3_mk_eq(z3, A, B)); break;
      case X_ULT: r = b2v(Z3_mk_bvult(z3, A, B)); break;
      case X_ULE: r = b2v(Z3_mk_bvule(z3, A, B)); break;
      case X_SLT: r = b2v(Z3_mk_bvslt(z3, A, B)); break;
      case X_SLE: r = b2v(Z3_mk_bvsle(z3, A, B)); break;
      case X_ITE: r = Z3_mk_ite(z3, Z3_mk_eq(z3, A, toZ3(C(1, 1))), B, toZ3(e->c)); break;
      case X_ZEXT: r = Z3_mk_zero_ext(z3, e->w - e->a->w, A); break;
      case X_SEXT: r = Z3_mk_sign_ext(z3, e->w - e->a->w, A); break;
      case X_EXTRACT: r = Z3_mk_extract(z3, e->k + e->w - 1, e->k, A); break;
      case X_CONCAT: r = Z3_mk_concat(z3, A, B); break;
      case X_UMULO: r = b2v(Z3_mk_not(z3, Z3_mk_bvmul_no_overflow(z3, A, B, false))); break;
      default: abort();
    }
    Z3_inc_ref(z3, r);
    e->z = r;
    return r;
  }
};
extern ExprCtx X;
