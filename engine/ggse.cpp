// ggse: a bounded symbolic executor for LLVM bitcode, used to decide the
// properties in /verif/properties.jsonl on the real code in /repo.
//
// * memory is concrete-addressed and copy-on-write; contents may be symbolic
// * every branch, pointer, size and assertion that depends on a symbolic value
//   is decided by Z3 over all values that satisfy the path condition
// * reading uninitialised memory yields a fresh symbolic value
// * accesses outside live memory, failed assertions, and exceeding the per-path
//   step bound are reported with a concrete counterexample
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include "mem.h"
#include <deque>
#include <map>
#include <set>
#include <memory>
#include <atomic>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <signal.h>
#include <time.h>

using namespace llvm;
ExprCtx X;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- options
static std::string optBc, optEntry = "harness_main", optOut = "out.json";
static uint64_t optMaxInst = 20000000, optSeedPaths = 0;
static double optTime = 600;
static int optJobs = 8, optFrontier = 256;
static bool optTrace = false;

// ---------------------------------------------------------------- decoded program
enum DOp : uint8_t {
  D_BIN, D_ICMP, D_CAST, D_SELECT, D_GEP, D_LOAD, D_STORE, D_ALLOCA, D_BR, D_CONDBR, D_SWITCH, D_RET,
  D_CALL, D_CALLI, D_INTR, D_MOV, D_EXTRACTV, D_INSERTV, D_UNREACHABLE, D_RMW, D_CMPXCHG, D_NOP, D_UNSUP
};
enum OK : uint8_t { O_CONST, O_REG, O_TLS };
struct Opd { OK k; uint32_t r; uint64_t c; };
struct Edge { uint32_t pc; std::vector<std::pair<uint32_t, Opd>> moves; };
struct GepIdx { Opd o; uint64_t scale; uint8_t w; };
struct Leaf { uint32_t slot; uint32_t off; uint8_t w; };
struct Func;
struct DInst {
  DOp op; uint8_t sub; uint8_t w, w2; bool hit = false;
  uint32_t dst; uint32_t n; // n: slots etc.
  Func *callee = nullptr;
  std::vector<Opd> o;
  std::vector<GepIdx> g;
  std::vector<Edge> e;
  std::vector<uint64_t> cases;
  std::vector<Leaf> leaves;
  const Instruction *in = nullptr;
  std::string *why = nullptr;
  uint64_t c = 0;
  std::vector<uint32_t> aux;
};
struct Func {
  std::string name; const Function *f; uint32_t id; uint64_t addr;
  std::vector<DInst> code; uint32_t nregs = 0;
  std::vector<uint32_t> preg; std::vector<uint8_t> pslots; std::vector<uint32_t> pbyval;
  int intr = 0; bool defined = false; bool repo = false;
};

enum Intr {
  I_NONE, I_U64, I_RANGE, I_CHOOSE, I_ASSUME, I_ASSERT, I_COVER, I_ALLOC, I_FREE, I_ISENGINE, I_EXIT, I_FAIL,
  I_THREADNEW, I_SWITCH, I_SELF, I_DIE, I_CONCRETE, I_LOG, I_MEMCPY, I_MEMMOVE, I_MEMSET, I_MEMCMP, I_STRLEN, I_TLSADDR, I_NOP,
  I_UMULO, I_UADDO, I_USUBO, I_UMAX, I_UMIN, I_SMAX, I_SMIN, I_ABS, I_CTPOP, I_CTLZ, I_CTTZ, I_BSWAP, I_USUBSAT, I_TRAP, I_RETARG0, I_OBJSIZE, I_CHECKMEM, I_UNMAP, I_MAPPED, I_FSHL, I_MARK, I_ITE
};

static Module *M; static const DataLayout *DL;
static std::vector<Func *> funcs; static std::map<const Function *, Func *> fmap;
static std::map<const GlobalVariable *, uint64_t> gaddr; // tls: offset
static uint64_t tlsSize = 0;
static std::vector<std::pair<uint64_t, std::vector<uint8_t>>> tlsInit;

// ---------------------------------------------------------------- state
struct Frame { Func *f; uint32_t pc; uint32_t retDst; uint64_t sp0; std::vector<Val> regs; };
struct Thread { std::vector<Frame> fr; uint64_t sp; bool dead = false; bool started = false; };
struct InRec { std::string name; uint32_t var; uint8_t w; };
struct UnRec { uint64_t addr; uint32_t var; };
struct State {
  Mem mem; std::vector<Thread> th; int cur = 0;
  std::vector<Expr *> pc; std::vector<uint64_t> model;
  std::vector<InRec> in; std::vector<UnRec> un;
  uint64_t heapTop = HEAP_BASE + 4096, ninst = 0;
  uint32_t nvars = 0; uint32_t marks = 0;
  std::vector<std::pair<Expr *, uint64_t>> known; // 64-bit expressions the path condition fixes to one value
};

struct Shared {
  std::atomic<uint64_t> next, paths, killed, insts, queries, qsat, qunsat, cacheHits, solverUs, assertsC, assertsS, assertsQ, forks, unknown;
  std::atomic<int> violation, incomplete, errflag, active, wid;
};
static Shared *S;
static int workerId = -1;
static double tStart;
static std::map<std::string, uint64_t> covers;
static std::vector<std::string> samples;
static std::deque<State *> work;
static bool bfs = true;
static std::string vioJson;
static std::string engineError;

struct Terminate { int kind; }; // 0 ok, 1 killed, 2 violation, 3 error

// ---------------------------------------------------------------- json helpers
static std::string js(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r + "\"";
}

static std::string locOf(const Instruction *in) {
  if (!in) return "?";
  std::string s;
  if (DILocation *l = in->getDebugLoc()) {
    s = l->getFilename().str() + ":" + std::to_string(l->getLine());
  } else s = "?";
  return s;
}

// ---------------------------------------------------------------- solver
static Z3_solver solver;
static std::unordered_map<std::string, std::pair<int, std::vector<std::pair<uint32_t, uint64_t>>>> qcache;
static void initZ3() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  X.z3 = Z3_mk_context(cfg);
  solver = Z3_mk_simple_solver(X.z3);
  Z3_solver_inc_ref(X.z3, solver);
  Z3_params p = Z3_mk_params(X.z3); Z3_params_inc_ref(X.z3, p);
  Z3_params_set_uint(X.z3, p, Z3_mk_string_symbol(X.z3, "timeout"), 30000);
  Z3_solver_set_params(X.z3, solver, p);
}

// is (pc && cond) satisfiable? On success, update `model` in place.
static int query(State &st, Expr *cond, std::vector<uint64_t> &model) {
  if (cond->op == X_CONST) return cond->k ? 1 : 0;
  std::vector<uint32_t> vs = *cond->vars;
  std::vector<Expr *> sl; std::vector<char> used(st.pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < st.pc.size(); i++) if (!used[i]) {
      auto &pv = *st.pc[i]->vars; bool inter = false;
      for (uint32_t v : pv) if (std::binary_search(vs.begin(), vs.end(), v)) { inter = true; break; }
      if (inter) {
        used[i] = 1; sl.push_back(st.pc[i]);
        std::vector<uint32_t> r; std::set_union(vs.begin(), vs.end(), pv.begin(), pv.end(), std::back_inserter(r));
        if (r.size() != vs.size()) { vs = r; ch = true; }
      }
    }
  }
  std::vector<uint32_t> ids; for (auto e : sl) ids.push_back(e->id);
  std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
  ids.push_back(cond->id);
  std::string key((char *) ids.data(), ids.size() * 4);
  auto it = qcache.find(key);
  std::pair<int, std::vector<std::pair<uint32_t, uint64_t>>> res;
  if (it != qcache.end()) { S->cacheHits++; res = it->second; }
  else {
    double t0 = now();
    Z3_solver_push(X.z3, solver);
    for (auto e : sl) Z3_solver_assert(X.z3, solver, X.toBool(e));
    Z3_solver_assert(X.z3, solver, X.toBool(cond));
    if (getenv("GS_SLOW") && !strcmp(getenv("GS_SLOW"), "all")) fprintf(stderr, "query:\n%s(check-sat)\n", Z3_solver_to_string(X.z3, solver));
    Z3_lbool r = Z3_solver_check(X.z3, solver);
    S->queries++;
    if (getenv("GS_SLOW") && now() - t0 > atof(getenv("GS_SLOW"))) fprintf(stderr, "slow query (%g s, %d):\n%s(check-sat)\n", now() - t0, (int) r, Z3_solver_to_string(X.z3, solver));
    if (r == Z3_L_TRUE) {
      S->qsat++; res.first = 1;
      Z3_model m = Z3_solver_get_model(X.z3, solver);
      Z3_model_inc_ref(X.z3, m);
      std::set<std::pair<uint32_t, unsigned>> seen;
      std::vector<Expr *> stack = sl; stack.push_back(cond);
      std::set<Expr *> vis;
      while (!stack.empty()) {
        Expr *e = stack.back(); stack.pop_back();
        if (!vis.insert(e).second) continue;
        if (e->op == X_VAR) {
          Z3_ast v; uint64_t u = 0;
          if (Z3_model_eval(X.z3, m, X.toZ3(e), true, &v)) Z3_get_numeral_uint64(X.z3, v, &u);
          res.second.push_back({(uint32_t) e->k, u});
        }
        if (e->a) stack.push_back(e->a);
        if (e->b) stack.push_back(e->b);
        if (e->c) stack.push_back(e->c);
      }
      Z3_model_dec_ref(X.z3, m);
    } else if (r == Z3_L_FALSE) { S->qunsat++; res.first = 0; }
    else { S->unknown++; S->incomplete = 1; res.first = -1; }
    Z3_solver_pop(X.z3, solver, 1);
    S->solverUs += (uint64_t) ((now() - t0) * 1e6);
    if (qcache.size() > 400000) qcache.clear();
    qcache[key] = res;
  }
  if (res.first == 1) for (auto &p : res.second) { if (model.size() <= p.first) model.resize(p.first + 1, 0); model[p.first] = p.second; }
  return res.first;
}

static void addPC(State &st, Expr *c) { if (c->op != X_CONST) st.pc.push_back(c); }

// ---------------------------------------------------------------- violations
static std::string stackTrace(State &st) {
  std::string s;
  auto &fr = st.th[st.cur].fr;
  for (size_t i = fr.size(); i-- > 0;) {
    Frame &f = fr[i];
    uint32_t pc = f.pc; if (pc >= f.f->code.size()) pc = f.f->code.size() - 1;
    const Instruction *in = f.f->code[pc].in;
    if (!s.empty()) s += " < ";
    s += f.f->name + " (" + locOf(in) + ")";
  }
  return s;
}
[[noreturn]] static void violate(State &st, const std::string &kind, const std::string &msg, const std::vector<uint64_t> *model = nullptr) {
  const std::vector<uint64_t> &m = model ? *model : st.model;
  std::string s = "{\"kind\":" + js(kind) + ",\"msg\":" + js(msg) + ",\"thread\":" + std::to_string(st.cur) + ",\"stack\":" + js(stackTrace(st)) + ",\"inputs\":[";
  bool first = true;
  for (auto &i : st.in) {
    uint64_t v = i.var < m.size() ? m[i.var] & maskw(i.w) : 0;
    if (!first) s += ","; first = false;
    s += "[" + js(i.name) + "," + js(std::to_string(v)) + "]";
  }
  s += "],\"uninit\":["; first = true;
  for (auto &u : st.un) {
    uint64_t v = u.var < m.size() ? m[u.var] : 0;
    if (!first) s += ","; first = false;
    s += "[" + js(std::to_string(u.addr)) + "," + js(std::to_string(v)) + "]";
  }
  s += "],\"steps\":" + std::to_string(st.ninst) + "}";
  vioJson = s;
  throw Terminate{2};
}
[[noreturn]] static void engineFail(State &st, const std::string &msg) {
  engineError = msg + " @ " + stackTrace(st);
  throw Terminate{3};
}

// ---------------------------------------------------------------- value helpers
static inline Expr *E(Val v, unsigned w) { return v.e ? v.e : X.C(v.c, w); }
static inline Val mkv(Expr *e) { return e->op == X_CONST ? Val{e->k, nullptr} : Val{0, e}; }
static uint32_t freshVar(State &st, uint64_t init) {
  uint32_t v = st.nvars++;
  if (st.model.size() <= v) st.model.resize(v + 1, 0);
  st.model[v] = init;
  return v;
}
static void pushState(State *s) { S->forks++; work.push_back(s); }

// split the state on a width-1 condition; returns the truth value in `st`; the
// other feasible side is queued, re-executing the current instruction.
static bool decide(State &st, Expr *c) {
  if (c->op == X_CONST) return c->k;
  bool v = X.eval(c, st.model);
  Expr *other = v ? X.lnot(c) : c;
  std::vector<uint64_t> m2 = st.model;
  int r = query(st, other, m2);
  if (r == 1) {
    State *n = new State(st);
    n->model = m2; addPC(*n, other);
    pushState(n);
    addPC(st, v ? c : X.lnot(c));
  }
  return v;
}
// make a value concrete; other feasible values are explored in forked states
static inline bool lookupKnown(State &st, Expr *e, uint64_t &k) {
  Expr *b = e; uint64_t off = 0;
  if (b->op == X_ADD && b->b->op == X_CONST) { off = b->b->k; b = b->a; }
  for (size_t i = st.known.size(); i-- > 0;) if (st.known[i].first == b) { k = st.known[i].second + off; return true; }
  return false;
}
static void addKnown(State &st, Expr *e, uint64_t k) {
  if (e->op == X_ADD && e->b->op == X_CONST) { k -= e->b->k; e = e->a; }
  if (st.known.size() >= 32) st.known.erase(st.known.begin());
  st.known.push_back({e, k});
}
static uint64_t concretize(State &st, Val v, unsigned w) {
  if (!v.e) return v.c;
  uint64_t kk; if (w == 64 && lookupKnown(st, v.e, kk)) return kk;
  uint64_t k = X.eval(v.e, st.model);
  Expr *eq = X.mk(X_EQ, 1, v.e, X.C(k, w));
  if (eq->op == X_CONST) return k;
  std::vector<uint64_t> m2 = st.model;
  int r = query(st, X.lnot(eq), m2);
  if (r == 1) {
    State *n = new State(st);
    n->model = m2; addPC(*n, X.lnot(eq));
    pushState(n);
    addPC(st, eq);
  }
  if (w == 64 && r != -1) addKnown(st, v.e, k);
  return k;
}

// ---------------------------------------------------------------- memory access
static Val readWord(State &st, uint64_t a) { // a 8-aligned, assumed valid
  Page *p = st.mem.peek(a);
  unsigned w = (a >> 3) & 63; uint64_t b = 1ull << w;
  if (p->uninit & b) {
    p = st.mem.own(a);
    uint32_t v = freshVar(st, 0xbebebebebebebebeull);
    st.un.push_back({a, v});
    if (!p->sym) p->sym = new Expr *[64];
    p->sym[w] = X.var(v, 64); p->symm |= b; p->uninit &= ~b;
    return Val{0, p->sym[w]};
  }
  if (p->symm & b) { uint64_t k; if (!st.known.empty() && lookupKnown(st, p->sym[w], k)) return Val{k, nullptr}; return Val{0, p->sym[w]}; }
  return Val{p->d[w], nullptr};
}
static void writeWord(State &st, uint64_t a, Val v) {
  Page *p = st.mem.own(a);
  unsigned w = (a >> 3) & 63; uint64_t b = 1ull << w;
  p->uninit &= ~b;
  if (v.e) { if (!p->sym) p->sym = new Expr *[64]; p->sym[w] = v.e; p->symm |= b; }
  else { p->d[w] = v.c; p->symm &= ~b; }
}
static inline bool accessible(State &st, uint64_t a, uint64_t len, bool wr) {
  if (!len) return true;
  for (uint64_t w = a & ~7ull; w < a + len;) {
    Page *p = st.mem.peek(w);
    if (!p) return false;
    unsigned i = (w >> 3) & 63;
    // check as many words as needed in this page
    uint64_t nw = std::min<uint64_t>(64 - i, (a + len - w + 7) / 8);
    uint64_t m = (nw == 64 ? ~0ull : ((1ull << nw) - 1)) << i;
    if ((p->valid & m) != m) return false;
    if (wr && (p->ro & m)) return false;
    w += nw * 8;
  }
  return true;
}
static std::string hex(uint64_t v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long) v); return b; }
static void checkAcc(State &st, uint64_t a, uint64_t len, bool wr) {
  if (!accessible(st, a, len, wr))
    violate(st, "memory", std::string("invalid ") + (wr ? "write" : "read") + " of " + std::to_string(len) + " bytes at " + hex(a));
}
static Val loadBytes(State &st, uint64_t a, unsigned n) { // n<=8
  unsigned o = a & 7;
  if (n == 8 && o == 0) return readWord(st, a);
  if (o + n <= 8) {
    Val w = readWord(st, a & ~7ull);
    if (!w.e) return CV((w.c >> (o * 8)) & maskw(n * 8));
    return mkv(X.mk(X_EXTRACT, n * 8, w.e, nullptr, nullptr, o * 8));
  }
  unsigned n1 = 8 - o, n2 = n - n1;
  Val lo = loadBytes(st, a, n1), hi = loadBytes(st, a + n1, n2);
  if (!lo.e && !hi.e) return CV(lo.c | (hi.c << (n1 * 8)));
  return mkv(X.mk(X_CONCAT, n * 8, E(hi, n2 * 8), E(lo, n1 * 8)));
}
static void storeBytes(State &st, uint64_t a, Val v, unsigned n) {
  unsigned o = a & 7;
  if (n == 8 && o == 0) { writeWord(st, a, v); return; }
  if (o + n <= 8) {
    Val w = readWord(st, a & ~7ull);
    if (!w.e && !v.e) {
      uint64_t m = maskw(n * 8) << (o * 8);
      writeWord(st, a & ~7ull, CV((w.c & ~m) | ((v.c << (o * 8)) & m)));
    } else {
      Expr *we = E(w, 64), *r = E(v, n * 8);
      if (o) r = X.mk(X_CONCAT, (o + n) * 8, r, X.mk(X_EXTRACT, o * 8, we, nullptr, nullptr, 0));
      if (o + n < 8) r = X.mk(X_CONCAT, 64, X.mk(X_EXTRACT, (8 - o - n) * 8, we, nullptr, nullptr, (o + n) * 8), r);
      writeWord(st, a & ~7ull, mkv(r));
    }
    return;
  }
  unsigned n1 = 8 - o, n2 = n - n1;
  Val lo, hi;
  if (v.e) { lo = mkv(X.mk(X_EXTRACT, n1 * 8, v.e, nullptr, nullptr, 0)); hi = mkv(X.mk(X_EXTRACT, n2 * 8, v.e, nullptr, nullptr, n1 * 8)); }
  else { lo = CV(v.c & maskw(n1 * 8)); hi = CV(v.c >> (n1 * 8)); }
  storeBytes(st, a, lo, n1); storeBytes(st, a + n1, hi, n2);
}
static void memSet(State &st, uint64_t a, Val v, uint64_t n) {
  checkAcc(st, a, n, true);
  if (v.e) { v = mkv(X.mk(X_EXTRACT, 8, v.e, nullptr, nullptr, 0)); }
  if (v.e) { for (uint64_t i = 0; i < n; i++) storeBytes(st, a + i, v, 1); return; }
  uint64_t b = v.c & 0xff, w8 = b * 0x0101010101010101ull;
  while (n && (a & 7)) { storeBytes(st, a, CV(b), 1); a++; n--; }
  while (n >= 8) {
    Page *p = st.mem.own(a);
    unsigned i = (a >> 3) & 63; uint64_t k = std::min<uint64_t>(64 - i, n / 8);
    uint64_t m = (k == 64 ? ~0ull : ((1ull << k) - 1)) << i;
    p->symm &= ~m; p->uninit &= ~m;
    for (uint64_t j = 0; j < k; j++) p->d[i + j] = w8;
    a += k * 8; n -= k * 8;
  }
  while (n) { storeBytes(st, a, CV(b), 1); a++; n--; }
}
static void memCpy(State &st, uint64_t d, uint64_t s, uint64_t n) { // memmove semantics
  if (!n) return;
  checkAcc(st, s, n, false); checkAcc(st, d, n, true);
  if (((d | s | n) & 7) == 0) {
    // word copy preserving uninit flags
    uint64_t nw = n / 8; bool back = d > s && d < s + n;
    for (uint64_t j = 0; j < nw; j++) {
      uint64_t i = back ? nw - 1 - j : j;
      uint64_t sa = s + i * 8, da = d + i * 8;
      Page *sp = st.mem.peek(sa); unsigned w = (sa >> 3) & 63;
      if (sp->uninit & (1ull << w)) {
        Page *dp = st.mem.own(da); uint64_t b = 1ull << ((da >> 3) & 63);
        dp->uninit |= b; dp->symm &= ~b;
      } else writeWord(st, da, readWord(st, sa));
    }
    return;
  }
  std::vector<Val> t(n);
  for (uint64_t i = 0; i < n; i++) t[i] = loadBytes(st, s + i, 1);
  for (uint64_t i = 0; i < n; i++) storeBytes(st, d + i, t[i], 1);
}
static std::string readStr(State &st, uint64_t a) {
  std::string s;
  for (int i = 0; i < 300; i++) {
    if (!accessible(st, a + i, 1, false)) break;
    Val v = loadBytes(st, a + i, 1); if (v.e) break;
    if (!v.c) break; s += (char) v.c;
  }
  return s;
}

// ---------------------------------------------------------------- decoding
static unsigned nslots(Type *t) {
  if (t->isVoidTy()) return 0;
  if (auto *s = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto *e : s->elements()) n += nslots(e); return n; }
  if (auto *a = dyn_cast<ArrayType>(t)) return a->getNumElements() * nslots(a->getElementType());
  return 1;
}
static unsigned width(Type *t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  return 0;
}
static void leavesOf(Type *t, uint64_t off, std::vector<Leaf> &out) {
  if (auto *s = dyn_cast<StructType>(t)) {
    auto *l = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++) leavesOf(s->getElementType(i), off + l->getElementOffset(i), out);
  } else if (auto *a = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(a->getElementType());
    for (uint64_t i = 0; i < a->getNumElements(); i++) leavesOf(a->getElementType(), off + i * es, out);
  } else out.push_back({(uint32_t) out.size(), (uint32_t) off, (uint8_t) width(t)});
}
static Func *getFunc(const Function *f);
struct ConstRes { bool ok; bool tls; uint64_t v; };
static ConstRes constVal(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) return {ci->getBitWidth() <= 64, false, ci->getBitWidth() <= 64 ? ci->getZExtValue() : 0};
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return {true, false, 0};
  if (auto *cf = dyn_cast<ConstantFP>(c)) return {true, false, cf->getValueAPF().bitcastToAPInt().getZExtValue()};
  if (auto *g = dyn_cast<GlobalVariable>(c)) { return {true, g->isThreadLocal(), gaddr.at(g)}; }
  if (auto *f = dyn_cast<Function>(c)) { if (f->isDeclaration() && f->hasExternalWeakLinkage()) return {true, false, 0}; return {true, false, getFunc(f)->addr}; }
  if (auto *ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto *gep = cast<GEPOperator>(ce);
        APInt off(64, 0);
        if (!gep->accumulateConstantOffset(*DL, off)) return {false, false, 0};
        auto b = constVal(cast<Constant>(gep->getPointerOperand()));
        return {b.ok, b.tls, b.v + off.getSExtValue()};
      }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::IntToPtr: case Instruction::PtrToInt: {
        auto b = constVal(ce->getOperand(0));
        unsigned w = width(ce->getType());
        return {b.ok && w > 0, b.tls, b.v & maskw(w)};
      }
      case Instruction::Trunc: { auto b = constVal(ce->getOperand(0)); return {b.ok && !b.tls, false, b.v & maskw(width(ce->getType()))}; }
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or:
      case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::ICmp: {
        auto a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1));
        if (!a.ok || !b.ok || a.tls || b.tls) return {false, false, 0};
        unsigned w = width(ce->getOperand(0)->getType()); uint64_t r = 0;
        switch (ce->getOpcode()) {
          case Instruction::Add: r = a.v + b.v; break; case Instruction::Sub: r = a.v - b.v; break;
          case Instruction::Mul: r = a.v * b.v; break; case Instruction::And: r = a.v & b.v; break;
          case Instruction::Or: r = a.v | b.v; break; case Instruction::Xor: r = a.v ^ b.v; break;
          case Instruction::Shl: r = b.v < w ? a.v << b.v : 0; break; case Instruction::LShr: r = b.v < w ? a.v >> b.v : 0; break;
          case Instruction::ICmp: switch (cast<ConstantExpr>(ce)->getPredicate()) {
            case CmpInst::ICMP_EQ: r = a.v == b.v; break; case CmpInst::ICMP_NE: r = a.v != b.v; break;
            case CmpInst::ICMP_ULT: r = a.v < b.v; break; case CmpInst::ICMP_UGT: r = a.v > b.v; break;
            default: return {false, false, 0}; } w = 1; break;
        }
        return {true, false, r & maskw(w)};
      }
      case Instruction::Select: { auto a = constVal(ce->getOperand(0)); if (!a.ok) return a; return constVal(ce->getOperand(a.v ? 1 : 2)); }
      default: return {false, false, 0};
    }
  }
  return {false, false, 0};
}

static int intrinsicByName(StringRef n) {
  static std::map<std::string, int> m = {
    {"gs_u64", I_U64}, {"gs_range", I_RANGE}, {"gs_choose", I_CHOOSE}, {"gs_assume", I_ASSUME}, {"gs_assert", I_ASSERT},
    {"gs_cover", I_COVER}, {"gs_alloc_raw", I_ALLOC}, {"gs_free_raw", I_FREE}, {"gs_is_engine", I_ISENGINE}, {"gs_exit", I_EXIT}, {"gs_fail", I_FAIL},
    {"gs_thread_new", I_THREADNEW}, {"gs_switch", I_SWITCH}, {"gs_self", I_SELF}, {"gs_thread_die", I_DIE}, {"gs_concrete", I_CONCRETE}, {"gs_log", I_LOG},
    {"gs_ite", I_ITE}, {"gs_mapped", I_MAPPED}, {"gs_mark", I_MARK},
    {"memcpy", I_MEMCPY}, {"memmove", I_MEMMOVE}, {"memset", I_MEMSET}, {"memcmp", I_MEMCMP}, {"strlen", I_STRLEN} };
  auto it = m.find(n.str());
  if (it != m.end()) return it->second;
  if (n.startswith("llvm.memcpy")) return I_MEMCPY;
  if (n.startswith("llvm.memmove")) return I_MEMMOVE;
  if (n.startswith("llvm.memset")) return I_MEMSET;
  if (n.startswith("llvm.threadlocal.address")) return I_TLSADDR;
  if (n.startswith("llvm.dbg") || n.startswith("llvm.lifetime") || n.startswith("llvm.assume") || n.startswith("llvm.experimental.noalias") || n.startswith("llvm.va_") || n.startswith("llvm.stackrestore") || n.startswith("llvm.donothing") || n.startswith("llvm.prefetch")) return I_NOP;
  if (n.startswith("llvm.stacksave")) return I_NOP;
  if (n.startswith("llvm.umul.with.overflow")) return I_UMULO;
  if (n.startswith("llvm.uadd.with.overflow")) return I_UADDO;
  if (n.startswith("llvm.usub.with.overflow")) return I_USUBO;
  if (n.startswith("llvm.umax")) return I_UMAX;
  if (n.startswith("llvm.umin")) return I_UMIN;
  if (n.startswith("llvm.smax")) return I_SMAX;
  if (n.startswith("llvm.smin")) return I_SMIN;
  if (n.startswith("llvm.abs")) return I_ABS;
  if (n.startswith("llvm.ctpop")) return I_CTPOP;
  if (n.startswith("llvm.ctlz")) return I_CTLZ;
  if (n.startswith("llvm.cttz")) return I_CTTZ;
  if (n.startswith("llvm.bswap")) return I_BSWAP;
  if (n.startswith("llvm.usub.sat")) return I_USUBSAT;
  if (n.startswith("llvm.fshl")) return I_FSHL;
  if (n.startswith("llvm.trap") || n.startswith("llvm.ubsantrap") || n.startswith("llvm.debugtrap")) return I_TRAP;
  if (n.startswith("llvm.expect") || n.startswith("llvm.launder") || n.startswith("llvm.strip") || n.startswith("llvm.ptr.annotation")) return I_RETARG0;
  if (n.startswith("llvm.objectsize")) return I_OBJSIZE;
  return I_NONE;
}
static Func *getFunc(const Function *f) {
  auto it = fmap.find(f);
  if (it != fmap.end()) return it->second;
  Func *r = new Func(); r->f = f; r->name = f->getName().str(); r->id = funcs.size(); r->addr = CODE_BASE + 16 * (uint64_t) r->id;
  r->defined = !f->isDeclaration(); if (!r->defined) r->intr = intrinsicByName(f->getName());
  funcs.push_back(r); fmap[f] = r;
  return r;
}
static bool demangleHide(const std::string &) { return false; }

static void decodeFunc(Func *F) {
  const Function *f = F->f;
  std::map<const Value *, uint32_t> reg; uint32_t nr = 0;
  for (auto &a : f->args()) {
    unsigned n = nslots(a.getType()); reg[&a] = nr; F->preg.push_back(nr); F->pslots.push_back(n);
    F->pbyval.push_back(a.hasByValAttr() ? (uint32_t) DL->getTypeAllocSize(a.getParamByValType()) : 0);
    nr += n;
  }
  std::map<const BasicBlock *, uint32_t> bpc;
  for (auto &b : *f) for (auto &i : b) if (!i.getType()->isVoidTy()) { reg[&i] = nr; nr += nslots(i.getType()); }
  F->nregs = nr;
  // pcs: phi instructions and debug intrinsics produce no code
  auto skip = [](const Instruction &i) {
    if (isa<PHINode>(i)) return true;
    if (isa<DbgInfoIntrinsic>(i)) return true;
    if (auto *ii = dyn_cast<IntrinsicInst>(&i)) { auto id = ii->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end) return true; }
    return false;
  };
  uint32_t pc = 0;
  for (auto &b : *f) { bpc[&b] = pc; for (auto &i : b) if (!skip(i)) pc++; }
  bool bad = false; std::string badWhy;
  auto opd = [&](const Value *v, unsigned slot = 0) -> Opd {
    if (auto *c = dyn_cast<Constant>(v)) {
      if (c->getType()->isAggregateType()) {
        if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return {O_CONST, 0, 0};
        // walk leaves
        std::vector<const Constant *> ls; std::vector<const Constant *> stk{c};
        std::function<void(const Constant *)> rec = [&](const Constant *k) {
          if (k->getType()->isAggregateType()) { unsigned n = isa<StructType>(k->getType()) ? k->getType()->getStructNumElements() : k->getType()->getArrayNumElements(); for (unsigned i = 0; i < n; i++) rec(k->getAggregateElement(i)); }
          else ls.push_back(k); };
        rec(c);
        auto r = constVal(ls[slot]);
        if (!r.ok) { bad = true; badWhy = "const"; }
        return {r.tls ? O_TLS : O_CONST, 0, r.v};
      }
      auto r = constVal(c);
      if (!r.ok) { bad = true; std::string s; raw_string_ostream os(s); c->print(os); badWhy = "constant " + s; }
      return {r.tls ? O_TLS : O_CONST, 0, r.v};
    }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) { bad = true; badWhy = "metadata/asm operand"; return {O_CONST, 0, 0}; }
    return {O_REG, reg.at(v) + slot, 0};
  };
  auto edge = [&](const BasicBlock *from, const BasicBlock *to) {
    Edge e; e.pc = bpc.at(to);
    for (auto &i : *to) { auto *p = dyn_cast<PHINode>(&i); if (!p) break;
      const Value *v = p->getIncomingValueForBlock(from);
      for (unsigned s = 0; s < nslots(p->getType()); s++) e.moves.push_back({reg.at(p) + s, opd(v, s)}); }
    return e;
  };
  for (auto &b : *f) for (auto &i : b) {
    if (skip(i)) continue;
    bad = false;
    DInst d; d.in = &i; d.dst = i.getType()->isVoidTy() ? 0 : reg.at(&i); d.n = nslots(i.getType()); d.w = width(i.getType()); d.w2 = 0; d.sub = 0; d.op = D_UNSUP;
    if (auto *bo = dyn_cast<BinaryOperator>(&i)) {
      d.op = D_BIN;
      switch (bo->getOpcode()) {
        case Instruction::Add: d.sub = X_ADD; break; case Instruction::Sub: d.sub = X_SUB; break; case Instruction::Mul: d.sub = X_MUL; break;
        case Instruction::UDiv: d.sub = X_UDIV; break; case Instruction::SDiv: d.sub = X_SDIV; break; case Instruction::URem: d.sub = X_UREM; break;
        case Instruction::SRem: d.sub = X_SREM; break; case Instruction::And: d.sub = X_AND; break; case Instruction::Or: d.sub = X_OR; break;
        case Instruction::Xor: d.sub = X_XOR; break; case Instruction::Shl: d.sub = X_SHL; break; case Instruction::LShr: d.sub = X_LSHR; break;
        case Instruction::AShr: d.sub = X_ASHR; break; default: bad = true; badWhy = "fp binop";
      }
      if (!d.w) { bad = true; badWhy = "vector binop"; }
      if (!bad) d.o = {opd(bo->getOperand(0)), opd(bo->getOperand(1))};
    } else if (auto *ic = dyn_cast<ICmpInst>(&i)) {
      d.op = D_ICMP; d.sub = ic->getPredicate(); d.w2 = width(ic->getOperand(0)->getType());
      if (!d.w2) { bad = true; badWhy = "vector icmp"; }
      d.o = {opd(ic->getOperand(0)), opd(ic->getOperand(1))};
    } else if (auto *ci = dyn_cast<CastInst>(&i)) {
      d.op = D_CAST; d.w2 = width(ci->getOperand(0)->getType());
      switch (ci->getOpcode()) {
        case Instruction::ZExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Trunc:
          d.sub = d.w < d.w2 ? X_EXTRACT : X_ZEXT; break;
        case Instruction::SExt: d.sub = X_SEXT; break;
        default: bad = true; badWhy = "fp cast";
      }
      if (!d.w || !d.w2) { bad = true; badWhy = "cast type"; }
      if (!bad) d.o = {opd(ci->getOperand(0))};
    } else if (isa<FreezeInst>(&i)) { d.op = D_MOV; for (unsigned s = 0; s < d.n; s++) d.o.push_back(opd(i.getOperand(0), s));
    } else if (auto *si = dyn_cast<SelectInst>(&i)) {
      d.op = D_SELECT; if (d.n != 1) { bad = true; badWhy = "agg select"; }
      d.o = {opd(si->getCondition()), opd(si->getTrueValue()), opd(si->getFalseValue())};
    } else if (auto *ge = dyn_cast<GetElementPtrInst>(&i)) {
      d.op = D_GEP; d.o = {opd(ge->getPointerOperand())};
      MapVector<Value *, APInt> vo; APInt co(64, 0);
      if (!cast<GEPOperator>(ge)->collectOffset(*DL, 64, vo, co)) { bad = true; badWhy = "gep"; }
      d.c = co.getSExtValue();
      for (auto &kv : vo) d.g.push_back({opd(kv.first), kv.second.getZExtValue(), (uint8_t) width(kv.first->getType())});
    } else if (auto *li = dyn_cast<LoadInst>(&i)) {
      d.op = D_LOAD; d.o = {opd(li->getPointerOperand())}; leavesOf(li->getType(), 0, d.leaves);
      d.c = DL->getTypeStoreSize(li->getType());
      for (auto &l : d.leaves) if (!l.w) { bad = true; badWhy = "load type"; }
    } else if (auto *si = dyn_cast<StoreInst>(&i)) {
      d.op = D_STORE; d.o = {opd(si->getPointerOperand())}; leavesOf(si->getValueOperand()->getType(), 0, d.leaves);
      d.c = DL->getTypeStoreSize(si->getValueOperand()->getType());
      for (auto &l : d.leaves) { if (!l.w) { bad = true; badWhy = "store type"; } d.o.push_back(opd(si->getValueOperand(), l.slot)); }
    } else if (auto *ai = dyn_cast<AllocaInst>(&i)) {
      d.op = D_ALLOCA; d.c = DL->getTypeAllocSize(ai->getAllocatedType()); d.o = {opd(ai->getArraySize())}; d.w2 = width(ai->getArraySize()->getType());
    } else if (auto *br = dyn_cast<BranchInst>(&i)) {
      if (br->isConditional()) { d.op = D_CONDBR; d.o = {opd(br->getCondition())}; d.e = {edge(&b, br->getSuccessor(0)), edge(&b, br->getSuccessor(1))}; }
      else { d.op = D_BR; d.e = {edge(&b, br->getSuccessor(0))}; }
    } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
      d.op = D_SWITCH; d.o = {opd(sw->getCondition())}; d.w2 = width(sw->getCondition()->getType()); d.e.push_back(edge(&b, sw->getDefaultDest()));
      for (auto &cs : sw->cases()) { d.cases.push_back(cs.getCaseValue()->getZExtValue()); d.e.push_back(edge(&b, cs.getCaseSuccessor())); }
    } else if (auto *ri = dyn_cast<ReturnInst>(&i)) {
      d.op = D_RET; d.n = 0; if (Value *v = ri->getReturnValue()) { d.n = nslots(v->getType()); for (unsigned s = 0; s < d.n; s++) d.o.push_back(opd(v, s)); }
    } else if (auto *cb = dyn_cast<CallBase>(&i)) {
      const Value *cv = cb->getCalledOperand()->stripPointerCasts();
      if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
      if (isa<InlineAsm>(cv)) { bad = true; badWhy = "inline asm"; }
      else {
        if (auto *cf = dyn_cast<Function>(cv)) { d.callee = getFunc(cf); d.op = d.callee->defined ? D_CALL : D_INTR; d.sub = d.callee->intr; }
        else { d.op = D_CALLI; d.o.push_back(opd(cb->getCalledOperand())); }
        d.c = 0;
        if (!(d.op == D_INTR && d.sub == I_NOP))
        for (auto &a : cb->args()) { unsigned n = nslots(a->getType()); d.aux.push_back(n); for (unsigned s = 0; s < n; s++) d.o.push_back(opd(a, s)); d.cases.push_back(width(a->getType())); }
      }
      if (isa<InvokeInst>(&i)) { bad = true; badWhy = "invoke"; }
    } else if (auto *ev = dyn_cast<ExtractValueInst>(&i)) {
      d.op = D_MOV; unsigned off = 0; Type *t = ev->getAggregateOperand()->getType();
      for (unsigned ix : ev->indices()) { if (auto *s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += nslots(s->getElementType(k)); t = s->getElementType(ix); } else { off += ix * nslots(t->getArrayElementType()); t = t->getArrayElementType(); } }
      for (unsigned s = 0; s < d.n; s++) d.o.push_back(opd(ev->getAggregateOperand(), off + s));
    } else if (auto *iv = dyn_cast<InsertValueInst>(&i)) {
      d.op = D_MOV; unsigned off = 0; Type *t = iv->getType();
      for (unsigned ix : iv->indices()) { if (auto *s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += nslots(s->getElementType(k)); t = s->getElementType(ix); } else { off += ix * nslots(t->getArrayElementType()); t = t->getArrayElementType(); } }
      unsigned vn = nslots(t);
      for (unsigned s = 0; s < d.n; s++) d.o.push_back(s >= off && s < off + vn ? opd(iv->getInsertedValueOperand(), s - off) : opd(iv->getAggregateOperand(), s));
    } else if (isa<UnreachableInst>(&i)) { d.op = D_UNREACHABLE;
    } else if (isa<FenceInst>(&i)) { d.op = D_NOP;
    } else if (auto *rm = dyn_cast<AtomicRMWInst>(&i)) {
      d.op = D_RMW; d.sub = rm->getOperation(); d.o = {opd(rm->getPointerOperand()), opd(rm->getValOperand())};
    } else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&i)) {
      d.op = D_CMPXCHG; d.w2 = width(cx->getCompareOperand()->getType()); d.o = {opd(cx->getPointerOperand()), opd(cx->getCompareOperand()), opd(cx->getNewValOperand())};
    } else { bad = true; badWhy = i.getOpcodeName(); }
    if (bad) { d.op = D_UNSUP; d.why = new std::string("unsupported: " + badWhy); }
    F->code.push_back(std::move(d));
  }
}

// ---------------------------------------------------------------- globals
static void initConst(State &st, uint64_t a, const Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    uint64_t es = DL->getTypeAllocSize(cd->getElementType());
    for (unsigned i = 0; i < cd->getNumElements(); i++) storeBytes(st, a + i * es, CV(constVal(cd->getElementAsConstant(i)).v), es);
    return;
  }
  if (auto *s = dyn_cast<StructType>(t)) { auto *l = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) initConst(st, a + l->getElementOffset(i), c->getAggregateElement(i)); return; }
  if (t->isArrayTy()) { uint64_t es = DL->getTypeAllocSize(t->getArrayElementType()); for (unsigned i = 0; i < t->getArrayNumElements(); i++) initConst(st, a + i * es, c->getAggregateElement(i)); return; }
  auto r = constVal(c);
  if (!r.ok) { std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "ggse: cannot initialise global with %s\n", s.c_str()); exit(3); }
  storeBytes(st, a, CV(r.v), DL->getTypeStoreSize(t));
}
static void newThreadMem(State &st, int tid) {
  uint64_t tb = TLS_BASE + tid * TLS_SZ;
  if (tlsSize) st.mem.map(tb, (tlsSize + 7) / 8, true);
  for (auto &g : M->globals()) if (g.isThreadLocal() && g.hasInitializer()) initConst(st, tb + gaddr[&g], g.getInitializer());
}

// ---------------------------------------------------------------- interpreter
static inline Val getv(State &st, Frame &f, const Opd &o) {
  switch (o.k) {
    case O_CONST: return CV(o.c);
    case O_REG: return f.regs[o.r];
    default: return CV(TLS_BASE + st.cur * TLS_SZ + o.c);
  }
}
static void enter(State &st, Func *F, const std::vector<Val> &args, uint32_t retDst, bool initial = false) {
  Thread &t = st.th[st.cur];
  if (t.fr.size() > 2000) violate(st, "memory", "stack overflow (call depth > 2000)");
  Frame fr; fr.f = F; fr.pc = 0; fr.retDst = retDst; fr.sp0 = t.sp; fr.regs.assign(F->nregs, Val{0, nullptr});
  unsigned k = 0;
  for (unsigned i = 0; i < F->preg.size(); i++) {
    for (unsigned s = 0; s < F->pslots[i] && k < args.size(); s++) fr.regs[F->preg[i] + s] = args[k++];
    if (F->pbyval[i]) {
      uint64_t n = (F->pbyval[i] + 7) / 8 * 8, a = t.sp; st.mem.map(a, n / 8, false); t.sp += n + 16;
      memCpy(st, a, concretize(st, fr.regs[F->preg[i]], 64), F->pbyval[i]);
      fr.regs[F->preg[i]] = CV(a);
    }
  }
  t.fr.push_back(std::move(fr));
}
static void takeEdge(State &st, Frame &f, const Edge &e) {
  size_t n = e.moves.size();
  if (n == 1) f.regs[e.moves[0].first] = getv(st, f, e.moves[0].second);
  else if (n) {
    Val tmp[64]; std::vector<Val> big; Val *v = tmp; if (n > 64) { big.resize(n); v = big.data(); }
    for (size_t i = 0; i < n; i++) v[i] = getv(st, f, e.moves[i].second);
    for (size_t i = 0; i < n; i++) f.regs[e.moves[i].first] = v[i];
  }
  f.pc = e.pc;
}
static Val binop(Op op, unsigned w, Val a, Val b) {
  if (!a.e && !b.e) return CV(evalOp(op, w, w, a.c, b.c, 0, 0, w));
  return mkv(X.mk(op, w, E(a, w), E(b, w)));
}
static Val icmp(unsigned pred, unsigned w, Val a, Val b) {
  if (!a.e && !b.e) {
    uint64_t x = a.c, y = b.c;
    switch (pred) {
      case CmpInst::ICMP_EQ: return CV(x == y); case CmpInst::ICMP_NE: return CV(x != y);
      case CmpInst::ICMP_ULT: return CV(x < y); case CmpInst::ICMP_ULE: return CV(x <= y);
      case CmpInst::ICMP_UGT: return CV(x > y); case CmpInst::ICMP_UGE: return CV(x >= y);
      case CmpInst::ICMP_SLT: return CV(sxt(x, w) < sxt(y, w)); case CmpInst::ICMP_SLE: return CV(sxt(x, w) <= sxt(y, w));
      case CmpInst::ICMP_SGT: return CV(sxt(x, w) > sxt(y, w)); default: return CV(sxt(x, w) >= sxt(y, w));
    }
  }
  Expr *x = E(a, w), *y = E(b, w);
  switch (pred) {
    case CmpInst::ICMP_EQ: return mkv(X.mk(X_EQ, 1, x, y)); case CmpInst::ICMP_NE: return mkv(X.lnot(X.mk(X_EQ, 1, x, y)));
    case CmpInst::ICMP_ULT: return mkv(X.mk(X_ULT, 1, x, y)); case CmpInst::ICMP_ULE: return mkv(X.mk(X_ULE, 1, x, y));
    case CmpInst::ICMP_UGT: return mkv(X.mk(X_ULT, 1, y, x)); case CmpInst::ICMP_UGE: return mkv(X.mk(X_ULE, 1, y, x));
    case CmpInst::ICMP_SLT: return mkv(X.mk(X_SLT, 1, x, y)); case CmpInst::ICMP_SLE: return mkv(X.mk(X_SLE, 1, x, y));
    case CmpInst::ICMP_SGT: return mkv(X.mk(X_SLT, 1, y, x)); default: return mkv(X.mk(X_SLE, 1, y, x));
  }
}

static void sampleState(State &st, const char *res) {
  if (samples.size() >= 4) return;
  std::string s = "{\"result\":" + js(res) + ",\"steps\":" + std::to_string(st.ninst) + ",\"constraints\":" + std::to_string(st.pc.size()) + ",\"inputs\":{";
  bool f = true; int n = 0; std::map<std::string, int> seen;
  for (auto &i : st.in) { if (n++ > 40) break; if (!f) s += ","; f = false; int k = seen[i.name]++; s += js(i.name + (k ? "#" + std::to_string(k) : "")) + ":" + js(std::to_string(i.var < st.model.size() ? st.model[i.var] & maskw(i.w) : 0)); }
  samples.push_back(s + "}}");
}

static void doIntr(State &st, DInst &d) {
  Thread &t = st.th[st.cur]; Frame &f = t.fr.back();
  auto arg = [&](unsigned i) { return getv(st, f, d.o[i]); };
  auto carg = [&](unsigned i) { Val v = arg(i); if (!v.e) return v.c; unsigned w = d.cases[i] ? d.cases[i] : 64; uint64_t k = concretize(st, v, w); if (d.o[i].k == O_REG) f.regs[d.o[i].r] = CV(k); return k; };
  auto ret = [&](Val v) { if (d.n) f.regs[d.dst] = v; };
  unsigned aw = d.cases.empty() ? 64 : (unsigned) d.cases[0];
  switch (d.sub) {
    case I_NOP: ret(CV(0)); break;
    case I_U64: { uint32_t v = freshVar(st, 0); st.in.push_back({readStr(st, carg(0)), v, 64}); ret(mkv(X.var(v, 64))); break; }
    case I_RANGE: {
      uint64_t lo = carg(1), hi = carg(2); if (lo > hi) engineFail(st, "gs_range: empty range");
      uint32_t v = freshVar(st, lo); st.in.push_back({readStr(st, carg(0)), v, 64}); Expr *e = X.var(v, 64);
      addPC(st, X.mk(X_ULE, 1, X.C(lo, 64), e)); addPC(st, X.mk(X_ULE, 1, e, X.C(hi, 64)));
      ret(mkv(e)); break; }
    case I_CHOOSE: {
      uint64_t n = carg(1); if (!n) engineFail(st, "gs_choose(0)");
      uint32_t v = freshVar(st, 0); st.in.push_back({readStr(st, carg(0)), v, 64});
      Expr *e = X.var(v, 64);
      for (uint64_t i = n; i-- > 1;) {
        State *c = new State(st); c->model[v] = i; addPC(*c, X.mk(X_EQ, 1, e, X.C(i, 64)));
        Frame &cf = c->th[c->cur].fr.back(); if (d.n) cf.regs[d.dst] = CV(i); cf.pc++;
        pushState(c);
      }
      addPC(st, X.mk(X_EQ, 1, e, X.C(0, 64)));
      ret(CV(0)); break; }
    case I_ASSUME: {
      Val v = arg(0);
      Expr *c = v.e ? X.lnot(X.mk(X_EQ, 1, v.e, X.C(0, aw))) : X.C(v.c != 0, 1);
      if (c->op == X_CONST) { if (!c->k) throw Terminate{1}; break; }
      if (!X.eval(c, st.model)) { std::vector<uint64_t> m = st.model; int r = query(st, c, m); if (r != 1) throw Terminate{1}; st.model = m; }
      addPC(st, c); break; }
    case I_ASSERT: {
      Val v = arg(0);
      if (!v.e) { S->assertsC++; if (!v.c) violate(st, "assert", readStr(st, carg(1))); break; }
      Expr *c = X.lnot(X.mk(X_EQ, 1, v.e, X.C(0, aw)));
      if (c->op == X_CONST) { S->assertsC++; if (!c->k) violate(st, "assert", readStr(st, carg(1))); break; }
      S->assertsS++;
      std::vector<uint64_t> m = st.model;
      if (!X.eval(c, st.model)) violate(st, "assert", readStr(st, carg(1)));
      int r = query(st, X.lnot(c), m);
      if (r == 1) violate(st, "assert", readStr(st, carg(1)), &m);
      break; }
    case I_COVER: covers[readStr(st, carg(0))]++; break;
    case I_ITE: { Val c = arg(0); unsigned cw = d.cases[0] ? d.cases[0] : 64; Val a = arg(1), b = arg(2);
      if (!c.e) ret(c.c ? a : b); else ret(mkv(X.mk(X_ITE, 64, X.lnot(X.mk(X_EQ, 1, c.e, X.C(0, cw))), E(a, 64), E(b, 64)))); break; }
    case I_MARK: st.marks |= 1u << carg(0); break;
    case I_ALLOC: {
      uint64_t sz = carg(0), al = carg(1); if (al < 16) al = 16; uint64_t w = (sz + 7) / 8; if (!w) w = 1;
      uint64_t a = (st.heapTop + al - 1) & ~(al - 1);
      if (a + w * 8 > HEAP_BASE + (1ull << 31)) { ret(CV(0)); break; }
      st.heapTop = a + w * 8 + 64; st.mem.map(a, w, false); ret(CV(a)); break; }
    case I_FREE: { uint64_t a = carg(0), sz = carg(1); uint64_t w = (sz + 7) / 8; if (!w) w = 1; st.mem.unmap(a, w); break; }
    case I_MAPPED: ret(CV(accessible(st, carg(0), carg(1), true))); break;
    case I_ISENGINE: ret(CV(1)); break;
    case I_EXIT: throw Terminate{0};
    case I_FAIL: violate(st, "assert", readStr(st, carg(0)));
    case I_CONCRETE: ret(CV(carg(0))); break;
    case I_LOG: if (optTrace) { Val v = arg(1); fprintf(stderr, "[log] %s %s\n", readStr(st, carg(0)).c_str(), v.e ? "sym" : hex(v.c).c_str()); } break;
    case I_THREADNEW: {
      uint64_t fn = carg(0); Val a = arg(1);
      if (fn < CODE_BASE || (fn - CODE_BASE) / 16 >= funcs.size()) engineFail(st, "bad thread fn");
      Func *F = funcs[(fn - CODE_BASE) / 16];
      int tid = st.th.size(); Thread nt; nt.sp = STACK_BASE + tid * STACK_SZ + 4096; st.th.push_back(std::move(nt));
      newThreadMem(st, tid);
      int sc = st.cur; st.cur = tid; enter(st, F, {a}, 0); st.cur = sc;
      Frame &f2 = st.th[st.cur].fr.back(); if (d.n) f2.regs[d.dst] = CV(tid); f2.pc++;
      return; }
    case I_SELF: ret(CV(st.cur)); break;
    case I_SWITCH: { uint64_t k = carg(0); if (k >= st.th.size() || st.th[k].dead) engineFail(st, "switch to bad thread"); f.pc++; st.cur = k; return; }
    case I_DIE: { uint64_t k = carg(0); if (k >= st.th.size() || st.th[k].dead) engineFail(st, "switch to bad thread");
      t.dead = true; if (tlsSize) st.mem.unmap(TLS_BASE + st.cur * TLS_SZ, (tlsSize + 7) / 8);
      { uint64_t b = STACK_BASE + st.cur * STACK_SZ; if (t.sp > b) st.mem.unmap(b, (t.sp - b) / 8); }
      st.cur = k; return; }
    case I_MEMCPY: case I_MEMMOVE: { uint64_t a = carg(0), b = carg(1), n = carg(2); memCpy(st, a, b, n); ret(CV(a)); break; }
    case I_MEMSET: { uint64_t a = carg(0), n = carg(2); memSet(st, a, arg(1), n); ret(CV(a)); break; }
    case I_MEMCMP: { uint64_t a = carg(0), b = carg(1), n = carg(2); checkAcc(st, a, n, false); checkAcc(st, b, n, false);
      // result: 0 iff equal; sign by first difference
      Expr *r = X.C(0, 32);
      for (uint64_t i = n; i-- > 0;) { Expr *x = E(loadBytes(st, a + i, 1), 8), *y = E(loadBytes(st, b + i, 1), 8);
        r = X.mk(X_ITE, 32, X.mk(X_EQ, 1, x, y), r, X.mk(X_ITE, 32, X.mk(X_ULT, 1, x, y), X.C(~0u, 32), X.C(1, 32))); }
      ret(mkv(r)); break; }
    case I_STRLEN: { uint64_t a = carg(0), n = 0; for (;; n++) { checkAcc(st, a + n, 1, false); Val v = loadBytes(st, a + n, 1); if (!concretize(st, v, 8)) break; } ret(CV(n)); break; }
    case I_TLSADDR: ret(arg(0)); break;
    case I_UMULO: { Val a = arg(0), b = arg(1); f.regs[d.dst] = binop(X_MUL, aw, a, b);
      f.regs[d.dst + 1] = (!a.e && !b.e) ? CV(evalOp(X_UMULO, 1, aw, a.c, b.c, 0, 0, aw)) : mkv(X.mk(X_UMULO, 1, E(a, aw), E(b, aw))); break; }
    case I_UADDO: { Val a = arg(0), b = arg(1), s = binop(X_ADD, aw, a, b); f.regs[d.dst] = s; f.regs[d.dst + 1] = icmp(CmpInst::ICMP_ULT, aw, s, a); break; }
    case I_USUBO: { Val a = arg(0), b = arg(1); f.regs[d.dst] = binop(X_SUB, aw, a, b); f.regs[d.dst + 1] = icmp(CmpInst::ICMP_ULT, aw, a, b); break; }
    case I_UMAX: case I_UMIN: case I_SMAX: case I_SMIN: {
      Val a = arg(0), b = arg(1); unsigned p = (d.sub == I_UMAX) ? CmpInst::ICMP_UGT : (d.sub == I_UMIN) ? CmpInst::ICMP_ULT : (d.sub == I_SMAX) ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT;
      Val c = icmp(p, aw, a, b); if (!c.e) ret(c.c ? a : b); else ret(mkv(X.mk(X_ITE, aw, c.e, E(a, aw), E(b, aw)))); break; }
    case I_USUBSAT: { Val a = arg(0), b = arg(1); Val c = icmp(CmpInst::ICMP_ULT, aw, a, b), s = binop(X_SUB, aw, a, b); if (!c.e) ret(c.c ? CV(0) : s); else ret(mkv(X.mk(X_ITE, aw, c.e, X.C(0, aw), E(s, aw)))); break; }
    case I_ABS: { Val a = arg(0); Val n = icmp(CmpInst::ICMP_SLT, aw, a, CV(0)), g = binop(X_SUB, aw, CV(0), a); if (!n.e) ret(n.c ? g : a); else ret(mkv(X.mk(X_ITE, aw, n.e, E(g, aw), E(a, aw)))); break; }
    case I_CTPOP: ret(CV(__builtin_popcountll(carg(0)))); break;
    case I_CTLZ: { uint64_t v = carg(0); ret(CV(v ? __builtin_clzll(v) - (64 - aw) : aw)); break; }
    case I_CTTZ: { uint64_t v = carg(0); ret(CV(v ? __builtin_ctzll(v) : aw)); break; }
    case I_BSWAP: { uint64_t v = carg(0); ret(CV(__builtin_bswap64(v) >> (64 - aw))); break; }
    case I_FSHL: { uint64_t a = carg(0), b = carg(1), s = carg(2) % aw; ret(CV((s ? (a << s) | (b >> (aw - s)) : a) & maskw(aw))); break; }
    case I_TRAP: violate(st, "abort", "trap");
    case I_RETARG0: ret(arg(0)); break;
    case I_OBJSIZE: ret(CV(~0ull)); break;
    default: engineFail(st, "call to undefined external function " + d.callee->name);
  }
  f.pc++;
}

static void step(State &st) {
  Thread &t = st.th[st.cur];
  Frame &f = t.fr.back();
  DInst &d = f.f->code[f.pc];
  d.hit = true;
  switch (d.op) {
    case D_BIN: {
      Val a = getv(st, f, d.o[0]), b = getv(st, f, d.o[1]);
      if (d.sub >= X_UDIV && d.sub <= X_SREM) {
        if (!b.e) { if (!b.c) violate(st, "arith", "division by zero"); }
        else { Expr *z = X.mk(X_EQ, 1, b.e, X.C(0, d.w)); std::vector<uint64_t> m = st.model; if (query(st, z, m) == 1) violate(st, "arith", "division by zero", &m); }
      }
      f.regs[d.dst] = binop((Op) d.sub, d.w, a, b); f.pc++; break; }
    case D_ICMP: f.regs[d.dst] = icmp(d.sub, d.w2, getv(st, f, d.o[0]), getv(st, f, d.o[1])); f.pc++; break;
    case D_CAST: {
      Val a = getv(st, f, d.o[0]);
      if (!a.e) f.regs[d.dst] = CV(d.sub == X_SEXT ? (uint64_t) sxt(a.c, d.w2) & maskw(d.w) : a.c & maskw(d.w));
      else f.regs[d.dst] = d.w == d.w2 ? a : mkv(X.mk((Op) d.sub, d.w, a.e));
      f.pc++; break; }
    case D_MOV: { if (d.n == 1) f.regs[d.dst] = getv(st, f, d.o[0]); else { std::vector<Val> v(d.n); for (unsigned i = 0; i < d.n; i++) v[i] = getv(st, f, d.o[i]); for (unsigned i = 0; i < d.n; i++) f.regs[d.dst + i] = v[i]; } f.pc++; break; }
    case D_SELECT: {
      Val c = getv(st, f, d.o[0]);
      if (!c.e) f.regs[d.dst] = getv(st, f, d.o[c.c & 1 ? 1 : 2]);
      else f.regs[d.dst] = mkv(X.mk(X_ITE, d.w, c.e, E(getv(st, f, d.o[1]), d.w), E(getv(st, f, d.o[2]), d.w)));
      f.pc++; break; }
    case D_GEP: {
      Val b = getv(st, f, d.o[0]); uint64_t acc = d.c; Expr *se = nullptr;
      for (auto &g : d.g) {
        Val i = getv(st, f, g.o);
        if (!i.e) acc += (uint64_t) sxt(i.c, g.w) * g.scale;
        else { Expr *x = g.w < 64 ? X.mk(X_SEXT, 64, i.e) : i.e; x = X.mk(X_MUL, 64, x, X.C(g.scale, 64)); se = se ? X.mk(X_ADD, 64, se, x) : x; }
      }
      if (!b.e && !se) f.regs[d.dst] = CV(b.c + acc);
      else { Expr *x = E(b, 64); if (se) x = X.mk(X_ADD, 64, x, se); f.regs[d.dst] = mkv(X.mk(X_ADD, 64, x, X.C(acc, 64))); }
      f.pc++; break; }
    case D_LOAD: {
      Val p = getv(st, f, d.o[0]); uint64_t a = p.e ? concretize(st, p, 64) : p.c;
      checkAcc(st, a, d.c, false);
      for (auto &l : d.leaves) { unsigned nb = (l.w + 7) / 8; Val v = loadBytes(st, a + l.off, nb); if (l.w < nb * 8) { if (v.e) v = mkv(X.mk(X_EXTRACT, l.w, v.e, nullptr, nullptr, 0)); else v.c &= maskw(l.w); } f.regs[d.dst + l.slot] = v; }
      f.pc++; break; }
    case D_STORE: {
      Val p = getv(st, f, d.o[0]); uint64_t a = p.e ? concretize(st, p, 64) : p.c;
      checkAcc(st, a, d.c, true);
      for (size_t i = 0; i < d.leaves.size(); i++) { auto &l = d.leaves[i]; unsigned nb = (l.w + 7) / 8; Val v = getv(st, f, d.o[1 + i]); if (v.e && l.w < nb * 8) v = mkv(X.mk(X_ZEXT, nb * 8, v.e)); storeBytes(st, a + l.off, v, nb); }
      f.pc++; break; }
    case D_ALLOCA: {
      Val n = getv(st, f, d.o[0]); uint64_t k = n.e ? concretize(st, n, d.w2) : n.c; uint64_t w = (d.c * k + 7) / 8; if (!w) w = 1;
      if (t.sp + w * 8 + 16 > STACK_BASE + (st.cur + 1) * STACK_SZ) violate(st, "memory", "stack overflow");
      uint64_t a = (t.sp + 15) & ~15ull; st.mem.map(a, w, false); t.sp = a + w * 8 + 16; f.regs[d.dst] = CV(a); f.pc++; break; }
    case D_BR: takeEdge(st, f, d.e[0]); break;
    case D_CONDBR: {
      Val c = getv(st, f, d.o[0]); bool b = c.e ? decide(st, c.e) : (c.c & 1);
      takeEdge(st, f, d.e[b ? 0 : 1]); break; }
    case D_SWITCH: {
      Val c = getv(st, f, d.o[0]); uint64_t v = c.e ? concretize(st, c, d.w2) : c.c; unsigned k = 0;
      for (unsigned i = 0; i < d.cases.size(); i++) if (d.cases[i] == v) { k = i + 1; break; }
      takeEdge(st, f, d.e[k]); break; }
    case D_RET: {
      std::vector<Val> rv(d.n); for (unsigned i = 0; i < d.n; i++) rv[i] = getv(st, f, d.o[i]);
      uint64_t sp0 = f.sp0; if (t.sp > sp0) st.mem.unmap(sp0 & ~7ull, (t.sp - sp0 + 7) / 8);
      t.sp = sp0; uint32_t rd = f.retDst; t.fr.pop_back();
      if (t.fr.empty()) throw Terminate{0};
      Frame &p = t.fr.back(); DInst &ci = p.f->code[p.pc];
      for (unsigned i = 0; i < d.n && i < ci.n; i++) p.regs[rd + i] = rv[i];
      p.pc++; break; }
    case D_CALL: {
      std::vector<Val> a(d.o.size()); for (size_t i = 0; i < a.size(); i++) a[i] = getv(st, f, d.o[i]);
      enter(st, d.callee, a, d.dst); break; }
    case D_CALLI: {
      Val p = getv(st, f, d.o[0]); uint64_t fn = p.e ? concretize(st, p, 64) : p.c;
      if (fn < CODE_BASE || (fn - CODE_BASE) % 16 || (fn - CODE_BASE) / 16 >= funcs.size()) violate(st, "memory", "call through invalid function pointer " + hex(fn));
      Func *F = funcs[(fn - CODE_BASE) / 16];
      if (!F->defined) engineFail(st, "indirect call to external " + F->name);
      std::vector<Val> a(d.o.size() - 1); for (size_t i = 0; i < a.size(); i++) a[i] = getv(st, f, d.o[i + 1]);
      enter(st, F, a, d.dst); break; }
    case D_INTR: doIntr(st, d); break;
    case D_RMW: {
      Val p = getv(st, f, d.o[0]); uint64_t a = concretize(st, p, 64); unsigned nb = (d.w + 7) / 8; checkAcc(st, a, nb, true);
      Val o = loadBytes(st, a, nb), v = getv(st, f, d.o[1]), r;
      switch (d.sub) { case AtomicRMWInst::Xchg: r = v; break; case AtomicRMWInst::Add: r = binop(X_ADD, d.w, o, v); break; case AtomicRMWInst::Sub: r = binop(X_SUB, d.w, o, v); break;
        case AtomicRMWInst::And: r = binop(X_AND, d.w, o, v); break; case AtomicRMWInst::Or: r = binop(X_OR, d.w, o, v); break; case AtomicRMWInst::Xor: r = binop(X_XOR, d.w, o, v); break; default: engineFail(st, "rmw"); }
      storeBytes(st, a, r, nb); f.regs[d.dst] = o; f.pc++; break; }
    case D_CMPXCHG: {
      uint64_t a = concretize(st, getv(st, f, d.o[0]), 64); unsigned nb = (d.w2 + 7) / 8; checkAcc(st, a, nb, true);
      Val o = loadBytes(st, a, nb); Val c = icmp(CmpInst::ICMP_EQ, d.w2, o, getv(st, f, d.o[1])); bool b = c.e ? decide(st, c.e) : c.c;
      if (b) storeBytes(st, a, getv(st, f, d.o[2]), nb); f.regs[d.dst] = o; f.regs[d.dst + 1] = CV(b); f.pc++; break; }
    case D_NOP: f.pc++; break;
    case D_UNREACHABLE: violate(st, "abort", "reached unreachable code");
    case D_UNSUP: engineFail(st, *d.why + " in " + f.f->name);
    default: engineFail(st, "bad op");
  }
}

// run a state until it terminates (or, in BFS mode, until it forks)
static int run(State *st, bool stopOnFork) {
  uint64_t n0 = st->ninst;
  try {
    size_t w0 = work.size();
    while (1) {
      for (int k = 0; k < 256; k++) {
        step(*st); st->ninst++;
        if (stopOnFork && work.size() != w0) { S->insts += st->ninst - n0; return -1; }
      }
      if (st->ninst > optMaxInst) violate(*st, "nontermination", "path exceeded " + std::to_string(optMaxInst) + " steps without finishing");
      if ((st->ninst & 0xffff) < 256) { if (S->violation.load() || S->errflag.load()) throw Terminate{4}; if (now() - tStart > optTime) { S->incomplete = 2; throw Terminate{4}; } }
    }
  } catch (Terminate &x) {
    S->insts += st->ninst - n0;
    if (x.kind == 0) { S->paths++; sampleState(*st, "held"); }
    else if (x.kind == 1) S->killed++;
    else if (x.kind == 2) { S->paths++; S->violation = 1; }
    else if (x.kind == 3) S->errflag = 1;
    return x.kind;
  }
}

static void dump(const std::string &path) {
  FILE *fo = fopen(path.c_str(), "w");
  fprintf(fo, "{\"worker\":%d,\n\"covers\":{", workerId);
  bool first = true; for (auto &c : covers) { fprintf(fo, "%s%s:%llu", first ? "" : ",", js(c.first).c_str(), (unsigned long long) c.second); first = false; }
  fprintf(fo, "},\n\"samples\":["); first = true; for (auto &s : samples) { fprintf(fo, "%s%s", first ? "" : ",\n", s.c_str()); first = false; }
  fprintf(fo, "],\n\"violation\":%s,\n\"error\":%s,\n\"functions\":{", vioJson.empty() ? "null" : vioJson.c_str(), js(engineError).c_str());
  first = true;
  for (auto *F : funcs) if (F->defined) {
    std::string h; bool any = false; unsigned acc = 0, nb = 0;
    for (auto &d : F->code) { if (d.hit) { any = true; acc |= 1u << nb; } if (++nb == 4) { h += "0123456789abcdef"[acc]; acc = nb = 0; } }
    if (nb) h += "0123456789abcdef"[acc];
    if (!any) continue;
    std::string file = "?"; if (auto *sp = F->f->getSubprogram()) file = sp->getFilename().str();
    fprintf(fo, "%s%s:[%s,%zu,\"%s\"]", first ? "" : ",\n", js(F->name).c_str(), js(file).c_str(), F->code.size(), h.c_str()); first = false;
  }
  fprintf(fo, "}}\n"); fclose(fo);
}

int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") optEntry = nx(); else if (a == "--out") optOut = nx(); else if (a == "--max-inst") optMaxInst = std::stoull(nx());
    else if (a == "--time") optTime = std::stod(nx()); else if (a == "--jobs") optJobs = std::stoi(nx()); else if (a == "--frontier") optFrontier = std::stoi(nx());
    else if (a == "--trace") optTrace = true; else optBc = a;
  }
  tStart = now();
  S = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *) S, 0, sizeof *S);
  LLVMContext ctx; SMDiagnostic err;
  auto mod = parseIRFile(optBc, err, ctx);
  if (!mod) { err.print("ggse", errs()); return 3; }
  M = mod.get(); DL = &M->getDataLayout();

  // __gs_main: every constructor in order, then the entry point
  {
    Function *e = M->getFunction(optEntry);
    if (!e || e->isDeclaration()) { fprintf(stderr, "ggse: no entry %s\n", optEntry.c_str()); return 3; }
    std::vector<std::pair<uint64_t, Function *>> ctors;
    if (auto *gc = M->getGlobalVariable("llvm.global_ctors", true)) if (gc->hasInitializer()) if (auto *arr = dyn_cast<ConstantArray>(gc->getInitializer()))
      for (auto &op : arr->operands()) { auto *cs = cast<ConstantStruct>(op); if (auto *fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn}); }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
    FunctionType *ft = FunctionType::get(Type::getVoidTy(ctx), false);
    Function *mf = Function::Create(ft, GlobalValue::ExternalLinkage, "__gs_main", M);
    BasicBlock *bb = BasicBlock::Create(ctx, "", mf);
    for (auto &c : ctors) CallInst::Create(ft, c.second, "", bb);
    CallInst::Create(ft, e, "", bb);
    ReturnInst::Create(ctx, bb);
  }

  // lay out globals
  State *st = new State();
  uint64_t ga = GLOBAL_BASE + 4096;
  for (auto &g : M->globals()) {
    uint64_t sz = g.getValueType()->isSized() ? (uint64_t) DL->getTypeAllocSize(g.getValueType()) : 8; uint64_t al = std::max<uint64_t>(16, g.getAlign() ? g.getAlign()->value() : 16);
    if (g.isThreadLocal()) { tlsSize = (tlsSize + al - 1) / al * al; gaddr[&g] = tlsSize; tlsSize += (sz + 7) / 8 * 8; }
    else { ga = (ga + al - 1) / al * al; gaddr[&g] = ga; ga += (sz + 7) / 8 * 8 + 16; }
  }
  for (auto &f : *M) getFunc(&f);
  for (auto &g : M->globals()) if (!g.isThreadLocal()) {
    uint64_t sz = g.getValueType()->isSized() ? (uint64_t) DL->getTypeAllocSize(g.getValueType()) : 8;
    st->mem.map(gaddr[&g], std::max<uint64_t>(1, (sz + 7) / 8), true);
    if (g.hasInitializer()) initConst(*st, gaddr[&g], g.getInitializer());
  }
  for (auto &g : M->globals()) if (!g.isThreadLocal() && g.isConstant()) {
    uint64_t sz = DL->getTypeAllocSize(g.getValueType());
    // mark read-only without disturbing contents
    for (uint64_t i = 0; i < (sz + 7) / 8; i++) { uint64_t a = gaddr[&g] + i * 8; Page *p = st->mem.own(a, true); p->ro |= 1ull << ((a >> 3) & 63); }
  }
  for (size_t i = 0; i < funcs.size(); i++) if (funcs[i]->defined) decodeFunc(funcs[i]);
  Thread t0; t0.sp = STACK_BASE + 4096; st->th.push_back(t0); newThreadMem(*st, 0);
  initZ3();

  Function *ef = M->getFunction("__gs_main");
  enter(*st, getFunc(ef), {}, 0);
  work.push_back(st);
  {
    // breadth-first until the frontier is large enough, then hand out to workers
    while (!work.empty() && (int) work.size() < optFrontier && !S->violation && !S->errflag && !S->incomplete) {
      State *s = work.front(); work.pop_front();
      int r = run(s, true);
      if (r == -1) work.push_back(s); else delete s;
    }
    dump(optOut + ".w0");
    if (!work.empty() && !S->violation && !S->errflag && !S->incomplete) {
      std::vector<State *> front(work.begin(), work.end()); work.clear();
      std::vector<pid_t> pids;
      S->active = optJobs; S->wid = 0;
      auto asWorker = [&]() { workerId = ++S->wid; covers.clear(); samples.clear(); vioJson.clear(); pids.clear(); for (auto *F : funcs) for (auto &d : F->code) d.hit = false; };
      for (int w = 0; w < optJobs; w++) {
        pid_t p = fork();
        if (p == 0) {
          asWorker();
          double lastSplit = now(); int bad = 0;
          while (!S->violation && !S->errflag && S->incomplete != 2) {
            uint64_t i = S->next++;
            if (i >= front.size()) break;
            work.push_back(front[i]);
            while (!work.empty() && !S->violation && !S->errflag && S->incomplete != 2) {
              State *s = work.back(); work.pop_back();
              run(s, false);
              delete s;
              // hand half of the pending states to a new worker when another one has run dry
              if (work.size() >= 2 && S->active < optJobs && S->next >= front.size() && now() - lastSplit > 0.05) {
                lastSplit = now();
                if (++S->active > optJobs) { S->active--; continue; }
                std::deque<State *> a, b; bool f = false;
                for (State *q : work) { (f ? a : b).push_back(q); f = !f; }
                pid_t c = fork();
                if (c == 0) { asWorker(); bad = 0; work.swap(a); lastSplit = now(); }
                else if (c > 0) { pids.push_back(c); work.swap(b); }
                else S->active--;
              }
            }
          }
          dump(optOut + ".w" + std::to_string(workerId));
          S->active--;
          for (pid_t c : pids) { int ws; waitpid(c, &ws, 0); if (!WIFEXITED(ws) || WEXITSTATUS(ws)) bad = 1; }
          _exit(bad);
        }
        pids.push_back(p);
      }
      for (pid_t p : pids) { int ws; waitpid(p, &ws, 0); if (!WIFEXITED(ws) || WEXITSTATUS(ws)) { engineError = "worker died"; S->errflag = 1; } }
    }
  }
done:
  {
    FILE *fo = fopen(optOut.c_str(), "w");
    fprintf(fo, "{\"paths\":%llu,\"killed\":%llu,\"insts\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"solver_s\":%.3f,\"asserts_folded\":%llu,\"asserts_solver\":%llu,\"forks\":%llu,\"violation\":%d,\"incomplete\":%d,\"error\":%d,\"error_msg\":%s,\"wall_s\":%.3f}\n",
      (unsigned long long) S->paths, (unsigned long long) S->killed, (unsigned long long) S->insts, (unsigned long long) S->queries, (unsigned long long) S->qsat, (unsigned long long) S->qunsat, (unsigned long long) S->unknown, (unsigned long long) S->cacheHits, S->solverUs / 1e6, (unsigned long long) S->assertsC, (unsigned long long) S->assertsS, (unsigned long long) S->forks, S->violation.load(), S->incomplete.load(), S->errflag.load(), js(engineError).c_str(), now() - tStart);
    fclose(fo);
  }
  if (S->violation) return 1;
  if (S->errflag) return 3;
  if (S->incomplete) return 4;
  return 0;
}
