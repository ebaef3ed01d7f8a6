// Copy-on-write byte-addressed memory: 512-byte pages of 64 words. Every word
// knows whether it is mapped, whether it is uninitialised, and whether it holds
// a symbolic expression.
#pragma once
#include "expr.h"

struct Val { uint64_t c; Expr *e; };
static inline Val CV(uint64_t c) { return Val{c, nullptr}; }

struct Page {
  uint32_t ref;
  uint64_t valid, uninit, symm, ro;
  Expr **sym;
  uint64_t d[64];
};
struct Chunk { uint32_t ref; Page *p[64]; };

static const uint64_t GLOBAL_BASE = 0x100000000000ull;
static const uint64_t HEAP_BASE   = 0x200000000000ull;
static const uint64_t STACK_BASE  = 0x300000000000ull;
static const uint64_t TLS_BASE    = 0x400000000000ull;
static const uint64_t CODE_BASE   = 0x500000000000ull;
static const uint64_t STACK_SZ = 1ull << 20, TLS_SZ = 1ull << 16;

static inline Page *pageNew() { Page *p = new Page(); p->ref = 1; p->valid = p->uninit = p->symm = p->ro = 0; p->sym = nullptr; return p; }
static inline void pageUnref(Page *p) { if (p && --p->ref == 0) { delete[] p->sym; delete p; } }

struct Mem {
  // regions: 0 globals, 1 heap, 2 stacks, 3 tls
  std::vector<Chunk *> r[4];
  Mem() {}
  Mem(const Mem &o) { for (int i = 0; i < 4; i++) { r[i] = o.r[i]; for (auto c : r[i]) if (c) c->ref++; } }
  Mem &operator=(const Mem &) = delete;
  ~Mem() { for (int i = 0; i < 4; i++) for (auto c : r[i]) if (c && --c->ref == 0) { for (auto p : c->p) pageUnref(p); delete c; } }
  static inline int region(uint64_t a, uint64_t &idx) {
    uint64_t hi = a >> 44;
    if (hi < 1 || hi > 4) return -1;
    idx = (a & ((1ull << 44) - 1)) >> 9;
    return (int) hi - 1;
  }
  inline Page *peek(uint64_t a) const {
    uint64_t idx; int g = region(a, idx);
    if (g < 0) return nullptr;
    uint64_t ci = idx >> 6;
    if (ci >= r[g].size()) return nullptr;
    Chunk *c = r[g][ci];
    return c ? c->p[idx & 63] : nullptr;
  }
  inline Page *own(uint64_t a, bool create = false) {
    uint64_t idx; int g = region(a, idx);
    if (g < 0) return nullptr;
    uint64_t ci = idx >> 6;
    if (ci >= r[g].size()) { if (!create || ci > 100000) return nullptr; r[g].resize(ci + 1, nullptr); }
    Chunk *&c = r[g][ci];
    if (!c) { if (!create) return nullptr; c = new Chunk(); c->ref = 1; memset(c->p, 0, sizeof c->p); }
    else if (c->ref > 1) {
      Chunk *n = new Chunk(); n->ref = 1; memcpy(n->p, c->p, sizeof n->p);
      for (auto p : n->p) if (p) p->ref++;
      c->ref--; c = n;
    }
    Page *&p = c->p[idx & 63];
    if (!p) { if (!create) return nullptr; p = pageNew(); }
    else if (p->ref > 1) {
      Page *n = pageNew();
      n->valid = p->valid; n->uninit = p->uninit; n->symm = p->symm; n->ro = p->ro;
      memcpy(n->d, p->d, sizeof n->d);
      if (p->symm) { n->sym = new Expr *[64]; memcpy(n->sym, p->sym, sizeof(Expr *) * 64); }
      p->ref--; p = n;
    }
    return p;
  }
  // map [a, a+words*8) as accessible
  void map(uint64_t a, uint64_t words, bool zero, bool ro = false) {
    while (words) {
      Page *p = own(a, true);
      unsigned w = (a >> 3) & 63;
      uint64_t n = std::min<uint64_t>(words, 64 - w);
      uint64_t m = (n == 64 ? ~0ull : ((1ull << n) - 1)) << w;
      p->valid |= m; p->symm &= ~m;
      if (ro) p->ro |= m; else p->ro &= ~m;
      if (zero) { p->uninit &= ~m; memset(p->d + w, 0, n * 8); } else p->uninit |= m;
      a += n * 8; words -= n;
    }
  }
  void unmap(uint64_t a, uint64_t words) {
    while (words) {
      Page *p = own(a, true);
      unsigned w = (a >> 3) & 63;
      uint64_t n = std::min<uint64_t>(words, 64 - w);
      uint64_t m = (n == 64 ? ~0ull : ((1ull << n) - 1)) << w;
      p->valid &= ~m; p->symm &= ~m; p->uninit &= ~m;
      a += n * 8; words -= n;
    }
  }
};
