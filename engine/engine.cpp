// nsym: a path-forking symbolic executor for LLVM 18 IR.
// Interprets the bitcode of the real code; inputs made symbolic by the harness
// become SMT variables, branches fork, assertions and implicit checks (memory
// safety, aborts, traps) are decided by z3 over all values on each path.
#include "expr.hpp"
#include <chrono>
#include <cxxabi.h>
#include <functional>
#include <set>
#include <unordered_set>
#include <unistd.h>

#include <llvm/ADT/SmallVector.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

using namespace llvm;
Exprs X;
static double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

// ------------------------------------------------------------------ options
static double opt_time = 600, opt_qtimeout = 120, opt_atimeout = 20;
static uint64_t opt_steps = 400000000ull;   // per path
static unsigned opt_depth = 20000;
static std::vector<int64_t> opt_args;
static int opt_tier = 0;
static bool opt_trace = false, opt_prof = false;
static std::string opt_dump;  // directory for SMT-LIB dumps of assertion queries
static unsigned opt_maxviol = 6;

// ------------------------------------------------------------------- memory
struct SB { Expr *e; uint32_t i; };
struct Blk { uint32_t rc, n; SB *sym; uint8_t d[1]; };
static Blk *blk_new(uint32_t n, int fill) {
  Blk *b = (Blk *)malloc(sizeof(Blk) + n);
  b->rc = 1; b->n = n; b->sym = nullptr; memset(b->d, fill, n);
  return b;
}
static Blk *blk_clone(Blk *o) {
  Blk *b = (Blk *)malloc(sizeof(Blk) + o->n);
  b->rc = 1; b->n = o->n; memcpy(b->d, o->d, o->n); b->sym = nullptr;
  if (o->sym) { b->sym = (SB *)malloc(sizeof(SB) * o->n); memcpy(b->sym, o->sym, sizeof(SB) * o->n); }
  return b;
}
static void blk_put(Blk *b) { if (b && !--b->rc) { free(b->sym); free(b); } }
enum { OF_RO = 1, OF_STACK = 2, OF_HEAP = 4, OF_GLOBAL = 8, OF_FUNC = 16, OF_NEWARR = 32, OF_NEW = 64 };
struct Obj { uint32_t rc, size, nb; uint8_t flags, shift, fill; Blk *b[1]; };
static const unsigned PSH = 12;
static Obj *obj_new(uint32_t size, uint8_t flags, int fill) {
  bool big = size > 16384;
  uint32_t nb = big ? (size + (1u << PSH) - 1) >> PSH : 1;
  Obj *o = (Obj *)malloc(sizeof(Obj) + sizeof(Blk *) * nb);
  o->rc = 1; o->size = size; o->nb = nb; o->flags = flags; o->shift = big ? PSH : 31; o->fill = fill;
  if (big) for (uint32_t i = 0; i < nb; i++) o->b[i] = nullptr;
  else o->b[0] = blk_new(size, fill);
  return o;
}
static Obj *obj_clone(Obj *s) {
  size_t n = sizeof(Obj) + sizeof(Blk *) * s->nb;
  Obj *o = (Obj *)malloc(n); memcpy(o, s, n); o->rc = 1;
  for (uint32_t i = 0; i < o->nb; i++) if (o->b[i]) o->b[i]->rc++;
  return o;
}
static Obj *const FREED = (Obj *)1;
static void obj_put(Obj *o) {
  if (!o || o == FREED) return;
  if (!--o->rc) { for (uint32_t i = 0; i < o->nb; i++) blk_put(o->b[i]); free(o); }
}
struct Chunk { uint32_t rc; Obj *o[256]; };
static const uint64_t ABASE = 1ull << 44;
static const unsigned ASH = 26;

// -------------------------------------------------------------------- state
struct Val { Expr *e; uint64_t c; };
struct FnInfo;
struct Frame { FnInfo *fn; int pc; uint32_t rbase; uint32_t abase; uint64_t va; };
struct ExcInfo { uint64_t ti; uint64_t dtor; int handlers; };
struct State {
  std::vector<Chunk *> mem; uint64_t nextid = 1;
  std::vector<Val> regs; std::vector<Frame> fr; std::vector<uint64_t> allocas;
  std::vector<Expr *> pcs; Model model; std::vector<TT> dom; VSet multi;
  std::map<uint64_t, ExcInfo> exc; std::vector<uint64_t> caught;
  uint64_t steps = 0; uint32_t forks = 0;
  std::vector<std::pair<uint64_t, uint64_t>> thrown;
  std::vector<std::string> notes; std::vector<Val> outs;
  State() {}
  State(const State &o) : mem(o.mem), nextid(o.nextid), regs(o.regs), fr(o.fr), allocas(o.allocas),
    pcs(o.pcs), model(o.model), dom(o.dom), multi(o.multi), exc(o.exc), caught(o.caught), steps(o.steps),
    forks(o.forks), notes(o.notes), outs(o.outs) { for (auto c : mem) c->rc++; }
  ~State() { for (auto c : mem) if (!--c->rc) { for (auto o : c->o) obj_put(o); free(c); } }
  State &operator=(const State &) = delete;

  Obj *get(uint64_t id) { return id < nextid ? mem[id >> 8]->o[id & 255] : nullptr; }
  Chunk *wchunk(uint64_t ci) {
    Chunk *c = mem[ci];
    if (c->rc > 1) {
      Chunk *n = (Chunk *)malloc(sizeof(Chunk)); memcpy(n, c, sizeof(Chunk)); n->rc = 1;
      for (auto o : n->o) if (o && o != FREED) o->rc++;
      c->rc--; mem[ci] = n; c = n;
    }
    return c;
  }
  Obj *wobj(uint64_t id) {
    Chunk *c = wchunk(id >> 8); Obj *o = c->o[id & 255];
    if (o->rc > 1) { Obj *n = obj_clone(o); o->rc--; c->o[id & 255] = n; o = n; }
    return o;
  }
  static Blk *wblk(Obj *o, uint32_t bi) {
    Blk *b = o->b[bi];
    if (!b) { uint32_t n = std::min<uint32_t>(1u << o->shift, o->size - (bi << o->shift)); return o->b[bi] = blk_new(n, o->fill); }
    if (b->rc > 1) { Blk *n = blk_clone(b); b->rc--; o->b[bi] = n; b = n; }
    return b;
  }
  uint64_t alloc(uint32_t size, uint8_t flags, int fill) {
    uint64_t id = nextid++;
    if ((id >> 8) >= mem.size()) { Chunk *c = (Chunk *)calloc(1, sizeof(Chunk)); c->rc = 1; mem.push_back(c); }
    Chunk *c = wchunk(id >> 8);
    c->o[id & 255] = obj_new(size, flags, fill);
    return ABASE + (id << ASH);
  }
  void release(uint64_t id) {
    Chunk *c = wchunk(id >> 8); obj_put(c->o[id & 255]); c->o[id & 255] = FREED;
  }
};

// ------------------------------------------------------------------ results
static struct Stats {
  uint64_t paths = 0, killed = 0, steps = 0, q = 0, qsat = 0, qunsat = 0, qunk = 0, qcache = 0, qfast = 0, qmodel = 0, forks = 0, errpaths = 0;
  double qtime = 0, qmax = 0;
} ST;
struct ChkStat { uint64_t reached = 0, konst = 0, proved = 0, failed = 0, open = 0; };
static std::map<std::string, ChkStat> checks;
static std::map<std::string, uint64_t> covers;
struct Viol { std::string kind, msg, site; std::vector<std::string> stack; Model model; std::vector<std::string> notes; };
static std::vector<Viol> viols;
static std::set<std::string> violkeys;
static bool incomplete = false; static std::string incomplete_why;
static void set_incomplete(const std::string &w) { if (!incomplete) { incomplete = true; incomplete_why = w; } }
static std::vector<std::string> samples;
struct Wit { Model model; std::vector<uint32_t> outs; };
static std::vector<Wit> wits;
struct Kill {};
static double t_start;

// ------------------------------------------------------------------- solver
static Z3Low *Z;
struct QKey { std::vector<uint32_t> k; bool operator==(const QKey &o) const { return k == o.k; } };
struct QH { size_t operator()(const QKey &q) const { uint64_t h = 1469598103934665603ull; for (auto x : q.k) { h ^= x; h *= 1099511628211ull; } return h; } };
struct QRes { int r; std::vector<std::pair<uint32_t, uint64_t>> m; };
static std::unordered_map<QKey, QRes, QH> qcache;
static unsigned dumpn = 0;

// solve pcs(slice) && extra; on sat, writes model values of slice variables
static int solve(State &s, Expr *extra, Model &out, bool assertion = false) {
  if (Exprs::isc(extra)) { if (!extra->v) return 0; out = s.model; return 1; }
  VSet vs = extra->vs;
  std::vector<Expr *> sl; std::vector<bool> in(s.pcs.size());
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < s.pcs.size(); i++)
      if (!in[i] && s.pcs[i]->vs.hits(vs)) { in[i] = true; vs.add(s.pcs[i]->vs); sl.push_back(s.pcs[i]); ch = true; }
  }
  QKey key;
  for (auto e : sl) key.k.push_back(e->id);
  std::sort(key.k.begin(), key.k.end());
  key.k.erase(std::unique(key.k.begin(), key.k.end()), key.k.end());
  key.k.push_back(extra->id);
  auto it = qcache.find(key);
  if (it != qcache.end()) {
    ST.qcache++;
    if (it->second.r == 1) { out = s.model; for (auto &p : it->second.m) { if (out.size() <= p.first) out.resize(p.first + 1); out[p.first] = p.second; } }
    return it->second.r;
  }
  double t0 = now();
  bool fp = extra->fp, uf = extra->uf;
  for (auto e : sl) { fp |= e->fp; uf |= e->uf; }
  z3::context &c = Z->c;
  z3::solver sv = uf ? z3::solver(c)
    : fp ? z3::tactic(c, "qffpbv").mk_solver()
         : (z3::tactic(c, "simplify") & z3::tactic(c, "propagate-values") & z3::tactic(c, "solve-eqs") & z3::tactic(c, "simplify") & z3::tactic(c, "bit-blast") & z3::tactic(c, "sat")).mk_solver();
  z3::params p(c);
  double left = std::max(1.0, std::min(assertion ? opt_atimeout : opt_qtimeout, opt_time - (t0 - t_start)));
  p.set("timeout", (unsigned)(left * 1000));
  sv.set(p);
  for (auto e : sl) sv.add(Z->B(e));
  sv.add(Z->B(extra));
  if (assertion && !opt_dump.empty()) {
    FILE *f = fopen((opt_dump + "/q" + std::to_string(getpid()) + "_" + std::to_string(dumpn++) + ".smt2").c_str(), "w");
    if (f) { std::string t = sv.to_smt2(); fputs(t.c_str(), f); fclose(f); }
  }
  z3::check_result r = z3::unknown;
  try { r = sv.check(); } catch (z3::exception &e) { fprintf(stderr, "nsym: z3: %s\n", e.msg()); r = z3::unknown; }
  ST.q++;
  int res;
  if (r == z3::unsat) { res = 0; ST.qunsat++; }
  else if (r == z3::sat) {
    res = 1; ST.qsat++;
    z3::model m = sv.get_model();
    out = s.model; out.resize(X.vars.size());
    QRes qr; qr.r = 1;
    for (unsigned v = 0; v < X.vars.size(); v++) if (vs.has(v)) {
      z3::expr ve = m.eval(Z->V(X.varexpr[v]), true);
      uint64_t val = 0; ve.is_numeral_u64(val);
      out[v] = val; qr.m.push_back({v, val});
    }
    // a model must really satisfy the query (UF interpretations may differ)
    bool ok = X.ev(extra, out);
    for (auto e : sl) ok = ok && X.ev(e, out);
    if (!ok) { if (!uf) fprintf(stderr, "nsym: model mismatch\n"); }
    qcache.emplace(std::move(key), std::move(qr));
    double dt = now() - t0; ST.qtime += dt; ST.qmax = std::max(ST.qmax, dt);
    return res;
  } else {
    res = 2; ST.qunk++;
    // undecided assertion: look for a counterexample among likely values
    if (assertion) {
      static uint64_t rs = 88172645463325252ull;
      auto rnd = [&] { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; };
      Model t = s.model; t.resize(X.vars.size());
      double tp = now();
      for (int k = 0; k < 20000 && now() - tp < 3; k++) {
        for (unsigned v = 0; v < X.vars.size(); v++) if (vs.has(v)) {
          unsigned w = X.vars[v].w; uint64_t m = w >= 64 ? ~0ull : (1ull << w) - 1;
          switch (rnd() % 6) {
          case 0: t[v] = v < s.model.size() ? s.model[v] : 0; break;
          case 1: t[v] = rnd() & m; break;
          case 2: t[v] = rnd() % 16; break;
          case 3: t[v] = (0 - rnd() % 16) & m; break;
          case 4: t[v] = (1ull << (rnd() % w)) & m; break;
          case 5: t[v] = ((1ull << (w - 1)) + rnd() % 5 - 2) & m; break;
          }
          if (w <= 8) { const TT &d = s.dom[v]; for (int q = 0; q < 256 && !(d[(t[v] & 255) >> 6] >> (t[v] & 63) & 1); q++) t[v] = (t[v] + 1) & m; }
        }
        bool ok = X.ev(extra, t);
        for (auto e : sl) if (!ok) break; else ok = X.ev(e, t);
        if (ok) { out = t; return 1; }
      }
    }
  }
  double dt = now() - t0; ST.qtime += dt; ST.qmax = std::max(ST.qmax, dt);
  if (res == 0) qcache.emplace(std::move(key), QRes{0, {}});
  return res;
}

static void add_pc(State &s, Expr *c) {
  if (Exprs::isc(c)) { if (!c->v) { throw Kill{}; } return; }
  if (c->op == E_AND && c->w == 1) { add_pc(s, c->a); add_pc(s, c->b); return; }
  for (auto it = s.pcs.rbegin(); it != s.pcs.rend() && it - s.pcs.rbegin() < 8; ++it) if (*it == c) return;
  s.pcs.push_back(c);
  int v = c->vs.single();
  if (v >= 0) {
    if (X.vars[v].w <= 8) { TT *t = X.truth(c); for (int i = 0; i < 4; i++) s.dom[v][i] &= (*t)[i]; }
    else s.multi.set(v);
  } else s.multi.add(c->vs);
}

static bool undecided = false;
// may c be true? (c not const). updates nothing; on yes writes a model
static bool may(State &s, Expr *c, Model &out, bool assertion = false) {
  if (Exprs::isc(c)) { if (c->v) out = s.model; return c->v; }
  int v = c->vs.single();
  if (!assertion && v >= 0 && X.vars[v].w <= 8) {
    TT *t = X.truth(c); const TT &d = s.dom[v];
    int pick = -1;
    for (int i = 0; i < 4; i++) { uint64_t x = (*t)[i] & d[i]; if (x) { pick = i * 64 + __builtin_ctzll(x); break; } }
    if (pick < 0) { ST.qfast++; return false; }
    if (!s.multi.has(v)) { ST.qfast++; out = s.model; out[v] = pick; return true; }
  }
  if (X.ev(c, s.model)) { ST.qmodel++; out = s.model; return true; }
  int r = solve(s, c, out, assertion);
  if (r == 2) { set_incomplete("solver returned unknown"); if (assertion) { undecided = true; return false; } throw Kill{}; }
  return r == 1;
}

// --------------------------------------------------------------------- code
enum {
  O_BIN, O_ICMP, O_FBIN, O_FCMP, O_TRUNC, O_ZEXT, O_SEXT, O_FCVT, O_FNEG, O_MOVE, O_LOAD, O_STORE, O_GEPC, O_GEP,
  O_ALLOCA, O_BR, O_CBR, O_SWITCH, O_CALL, O_RET, O_UNREACH, O_RESUME, O_LPAD, O_SELECT, O_RMW, O_CMPXCHG, O_BAD
};
struct Leaf { uint32_t off; uint8_t w; };
struct Edge { int pc; std::vector<std::pair<int, int>> cp; };
struct CallX {
  FnInfo *fn = nullptr; int callee = 0; bool indirect = false; std::vector<std::pair<int, int>> args; // operand, nslots
  std::vector<uint8_t> argw; std::vector<uint32_t> byval; int nret = 0; uint8_t retw = 0;
  Edge normal, unwind; bool invoke = false; bool isva = false; unsigned nfixed = 0;
};
struct LpX { bool cleanup; std::vector<int> catches; bool filter = false; };
struct GepX { std::vector<std::tuple<int, uint8_t, int64_t>> t; };
struct SwX { std::map<uint64_t, Edge *> m; std::vector<std::pair<uint64_t, Edge *>> v; Edge *def; };
struct Ins {
  uint8_t op, sub, w, w2; int n; int dst, a, b, c; int64_t imm; void *x; void *y; const Instruction *I;
};
struct Exec;
struct CallCtx { Exec *ex; State *s; CallX *cx; std::vector<Val> a; Val ret; bool threw; };
typedef void (*Handler)(CallCtx &);
struct FnInfo {
  Function *F = nullptr; bool decoded = false, executed = false; int nregs = 0; std::vector<Ins> code; std::vector<Val> K;
  Handler h = nullptr; uint64_t addr = 0; std::string name; int nargslots = 0; uint64_t nexec = 0;
};
static std::map<std::string, Handler> handlers;

struct Exec {
  std::unique_ptr<Module> M; LLVMContext ctx; const DataLayout *DL;
  std::unordered_map<const GlobalValue *, uint64_t> gaddr;
  std::unordered_map<uint64_t, FnInfo *> fnAt;
  std::unordered_map<const Function *, FnInfo *> fns;
  std::vector<State *> work;
  std::map<uint64_t, int> typeids;
  State *cur = nullptr;

  // ------------------------------------------------ types
  void flat(Type *T, std::vector<Leaf> &out, uint32_t off) {
    if (auto *st = dyn_cast<StructType>(T)) {
      auto *sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) flat(st->getElementType(i), out, off + sl->getElementOffset(i));
    } else if (auto *at = dyn_cast<ArrayType>(T)) {
      uint64_t es = DL->getTypeAllocSize(at->getElementType());
      for (uint64_t i = 0; i < at->getNumElements(); i++) flat(at->getElementType(), out, off + i * es);
    } else if (auto *vt = dyn_cast<FixedVectorType>(T)) {
      uint64_t es = DL->getTypeStoreSize(vt->getElementType());
      for (unsigned i = 0; i < vt->getNumElements(); i++) flat(vt->getElementType(), out, off + i * es);
    } else if (T->isVoidTy()) {
    } else out.push_back({off, (uint8_t)width(T)});
  }
  unsigned width(Type *T) {
    if (T->isPointerTy()) return 64;
    if (T->isFloatTy()) return 32;
    if (T->isDoubleTy()) return 64;
    if (auto *it = dyn_cast<IntegerType>(T)) return it->getBitWidth() > 64 ? 255 : it->getBitWidth();
    return 255;
  }
  int nslots(Type *T) { std::vector<Leaf> l; flat(T, l, 0); return l.size(); }

  // ------------------------------------------------ constants
  void cval(const Constant *C, std::vector<Val> &out) {
    Type *T = C->getType();
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C)) {
      int n = nslots(T); for (int i = 0; i < n; i++) out.push_back({0, 0}); return;
    }
    if (auto *ci = dyn_cast<ConstantInt>(C)) {
      if (ci->getBitWidth() > 64) { out.push_back({0, ci->getValue().extractBitsAsZExtValue(64, 0)}); return; }
      out.push_back({0, ci->getZExtValue()}); return; }
    if (auto *cf = dyn_cast<ConstantFP>(C)) { out.push_back({0, cf->getValueAPF().bitcastToAPInt().getLimitedValue()}); return; }
    if (auto *gv = dyn_cast<GlobalValue>(C)) { out.push_back({0, addrOf(gv)}); return; }
    if (auto *ca = dyn_cast<ConstantAggregate>(C)) { for (auto &o : ca->operands()) cval(cast<Constant>(o), out); return; }
    if (auto *cd = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < cd->getNumElements(); i++) cval(cd->getElementAsConstant(i), out); return; }
    if (auto *ce = dyn_cast<ConstantExpr>(C)) { out.push_back({0, cexpr(ce)}); return; }
    errs() << "nsym: const? " << *C << "\n"; exit(3);
  }
  uint64_t c1(const Constant *C) { std::vector<Val> v; cval(C, v); return v.at(0).c; }
  uint64_t cexpr(const ConstantExpr *ce) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      auto *g = cast<GEPOperator>(ce); APInt off(64, 0);
      if (!g->accumulateConstantOffset(*DL, off)) { errs() << "nsym: gep const\n"; exit(3); }
      return c1(cast<Constant>(g->getPointerOperand())) + off.getSExtValue();
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc:
      return c1(ce->getOperand(0)) & mask(width(ce->getType()));
    case Instruction::Sub: return (c1(ce->getOperand(0)) - c1(ce->getOperand(1))) & mask(width(ce->getType()));
    case Instruction::Add: return (c1(ce->getOperand(0)) + c1(ce->getOperand(1))) & mask(width(ce->getType()));
    case Instruction::And: return c1(ce->getOperand(0)) & c1(ce->getOperand(1));
    case Instruction::ICmp: {
      uint64_t a = c1(ce->getOperand(0)), b = c1(ce->getOperand(1));
      switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; default: break; }
    }
    }
    errs() << "nsym: constexpr? " << *ce << "\n"; exit(3);
  }
  uint64_t addrOf(const GlobalValue *g) {
    if (auto *al = dyn_cast<GlobalAlias>(g)) return addrOf(al->getAliaseeObject());
    auto it = gaddr.find(g);
    if (it != gaddr.end()) return it->second;
    if (auto *F = dyn_cast<Function>(g)) return info(F)->addr;
    errs() << "nsym: global? " << g->getName() << "\n"; exit(3);
  }
  FnInfo *info(const Function *F) {
    auto it = fns.find(F);
    if (it != fns.end()) return it->second;
    FnInfo *fi = new FnInfo; fi->F = const_cast<Function *>(F); fi->name = F->getName().str();
    fns[F] = fi;
    // function addresses live below ABASE in their own range
    fi->addr = (1ull << 40) + 16 * fns.size();
    gaddr[F] = fi->addr; fnAt[fi->addr] = fi;
    auto h = handlers.find(fi->name);
    if (h != handlers.end()) fi->h = h->second;
    return fi;
  }
  void initMem(State &s, uint64_t addr, const Constant *C) {
    Type *T = C->getType();
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C) || isa<ConstantPointerNull>(C)) return;
    if (auto *cd = dyn_cast<ConstantDataSequential>(C)) {
      StringRef r = cd->getRawDataValues(); uint64_t id = (addr - ABASE) >> ASH, off = (addr - ABASE) & ((1ull << ASH) - 1);
      Obj *o = s.wobj(id);
      for (size_t i = 0; i < r.size();) {
        Blk *b = State::wblk(o, (off + i) >> o->shift); uint32_t bo = (off + i) & ((1u << o->shift) - 1);
        size_t k = std::min<size_t>(r.size() - i, b->n - bo); memcpy(b->d + bo, r.data() + i, k); i += k;
      }
      return;
    }
    if (auto *st = dyn_cast<StructType>(T)) {
      auto *sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) initMem(s, addr + sl->getElementOffset(i), cast<Constant>(C->getOperand(i)));
      return;
    }
    if (auto *at = dyn_cast<ArrayType>(T)) {
      uint64_t es = DL->getTypeAllocSize(at->getElementType());
      for (uint64_t i = 0; i < at->getNumElements(); i++) initMem(s, addr + i * es, cast<Constant>(C->getOperand(i)));
      return;
    }
    if (auto *vt = dyn_cast<FixedVectorType>(T)) {
      uint64_t es = DL->getTypeStoreSize(vt->getElementType());
      for (unsigned i = 0; i < vt->getNumElements(); i++) initMem(s, addr + i * es, C->getAggregateElement(i));
      return;
    }
    uint64_t v = c1(C); unsigned n = DL->getTypeStoreSize(T);
    wr(s, addr, n, v);
  }

  // ------------------------------------------------ raw concrete memory
  void wr(State &s, uint64_t a, unsigned n, uint64_t v) { Val x{0, v}; store(s, a, n * 8, x); }

  // ------------------------------------------------ errors
  std::string where(const Instruction *I, const FnInfo *fi) {
    std::string fn = fi->name; int st; char *d = abi::__cxa_demangle(fn.c_str(), 0, 0, &st);
    if (d) { fn = d; free(d); }
    std::string r = fn;
    if (I) if (const DILocation *L = I->getDebugLoc().get()) {
      r += " (" + L->getFilename().str() + ":" + std::to_string(L->getLine());
      if (auto *sp = L->getScope()->getSubprogram()) if (sp->getName() != "" && fi->F && sp != fi->F->getSubprogram()) r += " inl " + sp->getName().str();
      r += ")";
    }
    return r;
  }
  std::vector<std::string> stack(State &s) {
    std::vector<std::string> v;
    for (int i = (int)s.fr.size() - 1; i >= 0; i--) {
      Frame &f = s.fr[i]; v.push_back(where(f.fn->code[f.pc].I, f.fn));
      if (v.size() >= 24) break;
    }
    return v;
  }
  void violation(State &s, const std::string &kind, const std::string &msg, const Model &m) {
    auto st = stack(s);
    std::string site = st.empty() ? "" : st[0];
    for (auto &x : st) if (x.find("nano::") != std::string::npos) { site = x; break; }
    std::string key = kind + "|" + msg + "|" + (kind == "check" ? "" : site);
    if (!violkeys.insert(key).second) return;
    Viol v{kind, msg, site, st, m, s.notes};
    v.model.resize(X.vars.size());
    viols.push_back(v);
  }
  [[noreturn]] void crash(State &s, const std::string &msg) {
    violation(s, "crash", msg, s.model);
    ST.errpaths++;
    throw Kill{};
  }
  // a crash that happens when c holds; continues with !c
  void crash_if(State &s, Expr *c, const std::string &msg) {
    if (Exprs::isc(c)) { if (c->v) crash(s, msg); return; }
    Model m;
    if (may(s, c, m, true)) {
      violation(s, "crash", msg, m);
      ST.errpaths++;
      assume(s, X.lnot(c));
    } else add_pc(s, X.lnot(c));
  }
  void assume(State &s, Expr *c) {
    if (Exprs::isc(c)) { if (!c->v) throw Kill{}; return; }
    Model m;
    if (!may(s, c, m)) throw Kill{};
    s.model = m; add_pc(s, c);
  }

  // ------------------------------------------------ memory access (concrete address)
  Obj *find(State &s, uint64_t a, uint64_t n, bool w, uint32_t &off, uint64_t &id) {
    if (a < ABASE) {
      if (a < 65536) crash(s, std::string(w ? "null write" : "null read"));
      crash(s, "wild pointer access");
    }
    id = (a - ABASE) >> ASH; off = (a - ABASE) & ((1u << ASH) - 1);
    Obj *o = s.get(id);
    if (!o) crash(s, "wild pointer access");
    if (o == FREED) crash(s, w ? "use after free (write)" : "use after free (read)");
    if ((uint64_t)off + n > o->size) crash(s, std::string(w ? "out of bounds write" : "out of bounds read"));
    if (w && (o->flags & OF_RO)) crash(s, "write to read-only memory");
    return o;
  }
  Val load(State &s, uint64_t a, unsigned w) {
    unsigned n = (w + 7) / 8; uint32_t off; uint64_t id;
    Obj *o = find(s, a, n, false, off, id);
    uint32_t bi = off >> o->shift, bo = off & ((1u << o->shift) - 1);
    Blk *b = o->b[bi];
    if (b && bo + n <= b->n && !b->sym) { uint64_t v = 0; memcpy(&v, b->d + bo, n); return {0, v & mask(w)}; }
    // slow
    uint8_t d[8]; SB sb[8]; bool any = false;
    for (unsigned i = 0; i < n; i++) any |= rdb(o, off + i, d[i], sb[i]);
    if (!any) { uint64_t v = 0; memcpy(&v, d, n); return {0, v & mask(w)}; }
    if (sb[0].e && sb[0].i == 0 && sb[0].e->w == n * 8) {
      bool same = true;
      for (unsigned i = 1; i < n && same; i++) same = sb[i].e == sb[0].e && sb[i].i == i;
      if (same) return val(X.extract(sb[0].e, 0, w));
    }
    Expr *e = nullptr;
    for (unsigned i = 0; i < n; i++) {
      Expr *x = sb[i].e ? X.extract(sb[i].e->w < 8 ? X.zext(sb[i].e, 8) : sb[i].e, sb[i].i * 8, 8) : X.cst(d[i], 8);
      e = e ? X.concat(x, e) : x;
    }
    return val(X.extract(e, 0, w));
  }
  bool rdb(Obj *o, uint32_t off, uint8_t &d, SB &sb) {
    Blk *b = o->b[off >> o->shift];
    if (!b) { d = o->fill; sb.e = nullptr; return false; }
    uint32_t bo = off & ((1u << o->shift) - 1);
    d = b->d[bo]; if (b->sym) sb = b->sym[bo]; else sb.e = nullptr;
    return sb.e != nullptr;
  }
  void wrb(Obj *o, uint32_t off, uint8_t d, SB sb) {
    Blk *b = State::wblk(o, off >> o->shift);
    uint32_t bo = off & ((1u << o->shift) - 1);
    b->d[bo] = d;
    if (sb.e && !b->sym) { b->sym = (SB *)calloc(b->n, sizeof(SB)); }
    if (b->sym) b->sym[bo] = sb;
  }
  void store(State &s, uint64_t a, unsigned w, const Val &v) {
    unsigned n = (w + 7) / 8; uint32_t off; uint64_t id;
    Obj *o = find(s, a, n, true, off, id);
    o = s.wobj(id);
    uint32_t bi = off >> o->shift, bo = off & ((1u << o->shift) - 1);
    Blk *b = State::wblk(o, bi);
    if (!v.e && bo + n <= b->n) {
      memcpy(b->d + bo, &v.c, n);
      if (b->sym) memset(b->sym + bo, 0, n * sizeof(SB));
      return;
    }
    if (v.e) {
      Expr *e = v.e; if (e->w & 7) e = X.zext(e, (e->w + 7) & ~7u);
      if (e->op == E_CONCAT || e->op == E_ZEXT) {
        // keep byte identity
        for (unsigned i = 0; i < n; i++) {
          Expr *x = X.extract(e, i * 8, 8);
          if (Exprs::isc(x)) wrb(o, off + i, x->v, {nullptr, 0});
          else wrb(o, off + i, 0, {x, 0});
        }
        if (e->op == E_CONCAT) {
          bool allsym = true;
          for (unsigned i = 0; i < n; i++) if (Exprs::isc(X.extract(e, i * 8, 8))) allsym = false;
          if (!allsym) return;
          for (unsigned i = 0; i < n; i++) wrb(o, off + i, 0, {e, i});
        }
        return;
      }
      for (unsigned i = 0; i < n; i++) wrb(o, off + i, 0, {e, i});
    } else for (unsigned i = 0; i < n; i++) wrb(o, off + i, v.c >> (8 * i), {nullptr, 0});
  }
  static Val val(Expr *e) { return Exprs::isc(e) ? Val{nullptr, e->v} : Val{e, 0}; }
  static Expr *ex(const Val &v, unsigned w) { return v.e ? v.e : X.cst(v.c, w); }

  // fork so that v is concrete in the current state; alternatives re-execute
  uint64_t concretize(State &s, const Val &v, unsigned w) {
    if (!v.e) return v.c;
    uint64_t c = X.ev(v.e, s.model);
    Expr *eq = X.bin(E_EQ, v.e, X.cst(c, v.e->w));
    Model m;
    if (!Exprs::isc(eq) && may(s, X.lnot(eq), m)) { State *t = forkst(s); t->model = m; add_pc(*t, X.lnot(eq)); work.push_back(t); }
    add_pc(s, eq);
    return c;
  }
  State *forkst(State &s) { ST.forks++; s.forks++; return new State(s); }

  Val loadsym(State &s, const Val &a, unsigned w) {
    if (!a.e) return load(s, a.c, w);
    unsigned n = (w + 7) / 8;
    uint64_t c = X.ev(a.e, s.model); uint32_t off; uint64_t id;
    Obj *o = find(s, c, n, false, off, id);
    uint64_t base = c - off;
    Expr *d = X.bin(E_SUB, a.e, X.cst(base, 64));
    Expr *inb = X.bin(E_ULE, d, X.cst(o->size - n, 64));
    split(s, inb);
    if (o->size > 2048) { uint64_t k = concretize(s, a, 64); return load(s, k, w); }
    unsigned st = X.tz(d) ? std::min<unsigned>(1u << std::min(X.tz(d), 3u), 8) : 1;
    uint64_t um = std::min<uint64_t>(o->size - n, X.umax(d));
    Expr *r = nullptr;
    for (int64_t k = (int64_t)(um / st * st); k >= 0; k -= st) {
      Expr *x = ex(load(s, base + k, w), w);
      r = r ? X.ite(X.bin(E_EQ, d, X.cst(k, 64)), x, r) : x;
    }
    return val(r);
  }
  // continue with c (known true in the model); alternatives re-execute
  void split(State &s, Expr *c) {
    if (Exprs::isc(c)) { if (!c->v) throw Kill{}; return; }
    Model m;
    if (may(s, X.lnot(c), m)) { State *t = forkst(s); t->model = m; add_pc(*t, X.lnot(c)); work.push_back(t); }
    add_pc(s, c);
  }

  // ------------------------------------------------ decode
  struct Dec {
    Exec &E; FnInfo &fi; std::unordered_map<const Value *, int> slot; std::map<const Constant *, int> kslot;
    std::unordered_map<const BasicBlock *, int> bpc;
    std::vector<std::pair<Edge *, std::pair<const BasicBlock *, const BasicBlock *>>> fix;
  };
  int operand(Dec &D, const Value *V) {
    auto it = D.slot.find(V);
    if (it != D.slot.end()) return it->second;
    auto *C = dyn_cast<Constant>(V);
    if (!C) { if (isa<MetadataAsValue>(V) || isa<InlineAsm>(V)) return ~0; errs() << "nsym: operand? " << *V << "\n"; exit(3); }
    auto k = D.kslot.find(C);
    if (k != D.kslot.end()) return k->second;
    int base = D.fi.K.size();
    cval(C, D.fi.K);
    if ((int)D.fi.K.size() == base) D.fi.K.push_back({0, 0});
    return D.kslot[C] = ~base;
  }
  void decode(FnInfo *fi) {
    fi->decoded = true;
    Function &F = *fi->F;
    if (Error e = F.materialize()) { errs() << "nsym: materialize\n"; exit(3); }
    Dec D{*this, *fi};
    int n = 0;
    for (auto &A : F.args()) { D.slot[&A] = n; n += nslots(A.getType()); }
    fi->nargslots = n;
    for (auto &B : F) for (auto &I : B) if (!I.getType()->isVoidTy()) { D.slot[&I] = n; n += std::max(1, nslots(I.getType())); }
    fi->nregs = n;
    for (auto &B : F) {
      D.bpc[&B] = fi->code.size();
      for (auto &I : B) decodeI(D, I);
    }
    for (auto &f : D.fix) {
      Edge *e = f.first; const BasicBlock *from = f.second.first, *to = f.second.second;
      e->pc = D.bpc[to];
      for (auto &P : to->phis()) {
        int d = D.slot[&P], src = operand(D, P.getIncomingValueForBlock(from)), k = nslots(P.getType());
        for (int i = 0; i < k; i++) { int so = src >= 0 ? src + i : src - i; if (so != d + i) e->cp.push_back({d + i, so}); }
      }
    }
  }
  Edge *edge(Dec &D, const BasicBlock *from, const BasicBlock *to) { Edge *e = new Edge; D.fix.push_back({e, {from, to}}); return e; }
  void decodeI(Dec &D, Instruction &I) {
    if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I) || isa<FenceInst>(I)) return;
    Ins o{}; o.I = &I; o.dst = D.slot.count(&I) ? D.slot[&I] : -1;
    auto P = [&](unsigned i) { return operand(D, I.getOperand(i)); };
    auto W = [&](unsigned i) { return (uint8_t)width(I.getOperand(i)->getType()); };
    auto bad = [&](const char *why) { o.op = O_BAD; o.x = (void *)why; };
    o.w = width(I.getType()); o.n = I.getType()->isVoidTy() ? 0 : nslots(I.getType());
    auto &code = D.fi.code;
    bool vec = I.getType()->isVectorTy();
    switch (I.getOpcode()) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
    case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      o.op = O_BIN; o.a = P(0); o.b = P(1);
      if (vec || o.w == 255) { bad("vector/wide binop"); break; }
      switch (I.getOpcode()) {
      case Instruction::Add: o.sub = E_ADD; break; case Instruction::Sub: o.sub = E_SUB; break; case Instruction::Mul: o.sub = E_MUL; break;
      case Instruction::UDiv: o.sub = E_UDIV; break; case Instruction::SDiv: o.sub = E_SDIV; break; case Instruction::URem: o.sub = E_UREM; break;
      case Instruction::SRem: o.sub = E_SREM; break; case Instruction::And: o.sub = E_AND; break; case Instruction::Or: o.sub = E_OR; break;
      case Instruction::Xor: o.sub = E_XOR; break; case Instruction::Shl: o.sub = E_SHL; break; case Instruction::LShr: o.sub = E_LSHR; break;
      case Instruction::AShr: o.sub = E_ASHR; break;
      }
      break;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
      o.op = O_FBIN; o.a = P(0); o.b = P(1);
      if (vec) { bad("vector fbin"); break; }
      o.sub = I.getOpcode() == Instruction::FAdd ? E_FADD : I.getOpcode() == Instruction::FSub ? E_FSUB : I.getOpcode() == Instruction::FMul ? E_FMUL : I.getOpcode() == Instruction::FDiv ? E_FDIV : E_FREM;
      break;
    case Instruction::FNeg: o.op = O_FNEG; o.a = P(0); if (vec) bad("vector fneg"); break;
    case Instruction::ICmp: o.op = O_ICMP; o.a = P(0); o.b = P(1); o.w = W(0); o.sub = cast<ICmpInst>(I).getPredicate(); if (vec || o.w == 255) bad("vector icmp"); break;
    case Instruction::FCmp: o.op = O_FCMP; o.a = P(0); o.b = P(1); o.w = W(0); o.sub = cast<FCmpInst>(I).getPredicate(); if (vec) bad("vector fcmp"); break;
    case Instruction::Trunc: o.op = O_TRUNC; o.a = P(0); o.w2 = W(0); if (vec || o.w2 == 255) bad("trunc"); break;
    case Instruction::ZExt: o.op = O_ZEXT; o.a = P(0); o.w2 = W(0); if (vec || o.w == 255) bad("zext"); break;
    case Instruction::SExt: o.op = O_SEXT; o.a = P(0); o.w2 = W(0); if (vec || o.w == 255) bad("sext"); break;
    case Instruction::PtrToInt: case Instruction::IntToPtr:
      o.a = P(0); o.w2 = W(0); o.op = o.w < o.w2 ? O_TRUNC : o.w > o.w2 ? O_ZEXT : O_MOVE; o.n = 1; break;
    case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast:
      o.op = O_MOVE; o.a = P(0);
      if (I.getOpcode() == Instruction::BitCast && nslots(I.getOperand(0)->getType()) != o.n) bad("bitcast");
      break;
    case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP:
      o.op = O_FCVT; o.a = P(0); o.w2 = W(0); o.imm = I.getOpcode(); if (vec) bad("vector fcvt"); break;
    case Instruction::Alloca: {
      auto &A = cast<AllocaInst>(I); o.op = O_ALLOCA; o.imm = DL->getTypeAllocSize(A.getAllocatedType()); o.a = P(0); break;
    }
    case Instruction::Load: {
      o.op = O_LOAD; o.a = P(0);
      auto *l = new std::vector<Leaf>; flat(I.getType(), *l, 0); o.x = l; o.n = l->size();
      for (auto &x : *l) if (x.w == 255) bad("wide load");
      break;
    }
    case Instruction::Store: {
      o.op = O_STORE; o.a = P(0); o.b = P(1);
      auto *l = new std::vector<Leaf>; flat(I.getOperand(0)->getType(), *l, 0); o.x = l; o.n = l->size();
      for (auto &x : *l) if (x.w == 255) bad("wide store");
      if (o.n == 1) o.w = (*l)[0].w;
      break;
    }
    case Instruction::GetElementPtr: {
      auto *G = cast<GEPOperator>(&I); o.a = P(0); int64_t off = 0; auto *gx = new GepX;
      for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
        Value *ix = it.getOperand();
        if (auto *st = it.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
        else {
          int64_t sz = it.getSequentialElementStride(*DL);
          if (auto *ci = dyn_cast<ConstantInt>(ix)) off += ci->getSExtValue() * sz;
          else gx->t.push_back({operand(D, ix), (uint8_t)width(ix->getType()), sz});
        }
      }
      o.imm = off;
      if (gx->t.empty()) { o.op = O_GEPC; delete gx; } else { o.op = O_GEP; o.x = gx; }
      if (vec) bad("vector gep");
      break;
    }
    case Instruction::Br: {
      auto &B = cast<BranchInst>(I);
      if (B.isUnconditional()) { o.op = O_BR; o.x = edge(D, B.getParent(), B.getSuccessor(0)); }
      else { o.op = O_CBR; o.a = operand(D, B.getCondition()); o.x = edge(D, B.getParent(), B.getSuccessor(0)); o.y = edge(D, B.getParent(), B.getSuccessor(1)); }
      break;
    }
    case Instruction::Switch: {
      auto &S = cast<SwitchInst>(I); o.op = O_SWITCH; o.a = P(0); o.w = W(0); auto *sx = new SwX;
      sx->def = edge(D, S.getParent(), S.getDefaultDest());
      for (auto &c : S.cases()) { Edge *e = edge(D, S.getParent(), c.getCaseSuccessor()); sx->m[c.getCaseValue()->getZExtValue()] = e; sx->v.push_back({c.getCaseValue()->getZExtValue(), e}); }
      o.x = sx; break;
    }
    case Instruction::Ret: o.op = O_RET; o.n = I.getNumOperands() ? nslots(I.getOperand(0)->getType()) : 0; o.a = o.n ? P(0) : 0; break;
    case Instruction::Unreachable: o.op = O_UNREACH; break;
    case Instruction::Resume: o.op = O_RESUME; o.a = P(0); break;
    case Instruction::LandingPad: {
      auto &L = cast<LandingPadInst>(I); o.op = O_LPAD; auto *lx = new LpX; lx->cleanup = L.isCleanup();
      for (unsigned i = 0; i < L.getNumClauses(); i++) { if (L.isCatch(i)) lx->catches.push_back(operand(D, L.getClause(i))); else lx->filter = true; }
      o.x = lx; break;
    }
    case Instruction::Select: o.op = O_SELECT; o.a = P(0); o.b = P(1); o.c = P(2); if (I.getOperand(0)->getType()->isVectorTy()) bad("vector select"); break;
    case Instruction::ExtractValue: {
      auto &E = cast<ExtractValueInst>(I); int src = P(0), off = 0; Type *T = E.getAggregateOperand()->getType();
      for (unsigned ix : E.indices()) { for (unsigned i = 0; i < ix; i++) off += nslots(T->isStructTy() ? T->getStructElementType(i) : T->getArrayElementType()); T = T->isStructTy() ? T->getStructElementType(ix) : T->getArrayElementType(); }
      o.op = O_MOVE; o.a = src >= 0 ? src + off : src - off; break;
    }
    case Instruction::InsertValue: {
      auto &E = cast<InsertValueInst>(I); int off = 0; Type *T = E.getAggregateOperand()->getType();
      for (unsigned ix : E.indices()) { for (unsigned i = 0; i < ix; i++) off += nslots(T->isStructTy() ? T->getStructElementType(i) : T->getArrayElementType()); T = T->isStructTy() ? T->getStructElementType(ix) : T->getArrayElementType(); }
      o.op = O_MOVE; o.a = P(0); code.push_back(o);
      o.n = nslots(T); o.dst += off; o.a = P(1); break;
    }
    case Instruction::ExtractElement: {
      auto *ci = dyn_cast<ConstantInt>(I.getOperand(1)); if (!ci) { bad("extractelement"); break; }
      int src = P(0), k = ci->getZExtValue(); o.op = O_MOVE; o.a = src >= 0 ? src + k : src - k; o.n = 1; break;
    }
    case Instruction::InsertElement: {
      auto *ci = dyn_cast<ConstantInt>(I.getOperand(2)); if (!ci) { bad("insertelement"); break; }
      o.op = O_MOVE; o.a = P(0); code.push_back(o); o.n = 1; o.dst += ci->getZExtValue(); o.a = P(1); break;
    }
    case Instruction::ShuffleVector: {
      auto &S = cast<ShuffleVectorInst>(I); int a = P(0), b = P(1); int k = cast<FixedVectorType>(S.getOperand(0)->getType())->getNumElements();
      o.op = O_MOVE; o.n = 1; int d0 = o.dst, i = 0, L = S.getShuffleMask().size();
      for (int m : S.getShuffleMask()) {
        o.dst = d0 + i; if (m < 0) m = 0; o.a = m < k ? (a >= 0 ? a + m : a - m) : (b >= 0 ? b + m - k : b - (m - k));
        if (++i < L) code.push_back(o);
      }
      break;
    }
    case Instruction::Call: case Instruction::Invoke: {
      auto &C = cast<CallBase>(I);
      if (C.isInlineAsm()) { return; }
      auto *cx = new CallX; o.op = O_CALL; o.x = cx; cx->invoke = isa<InvokeInst>(I);
      Value *cv = C.getCalledOperand()->stripPointerCasts();
      if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = const_cast<GlobalObject *>(al->getAliaseeObject());
      Function *F = dyn_cast<Function>(cv);
      if (F) {
        StringRef nm = F->getName();
        if (F->isIntrinsic()) {
          if (nm.starts_with("llvm.lifetime") || nm.starts_with("llvm.dbg") || nm.starts_with("llvm.assume") || nm.starts_with("llvm.experimental.noalias") || nm.starts_with("llvm.invariant") || nm.starts_with("llvm.donothing") || nm.starts_with("llvm.stackrestore") || nm.starts_with("llvm.prefetch")) return;
        }
        cx->fn = info(F);
      } else { cx->indirect = true; cx->callee = operand(D, cv); }
      for (unsigned i = 0; i < C.arg_size(); i++) {
        Type *T = C.getArgOperand(i)->getType();
        if (T->isMetadataTy()) { continue; }
        cx->args.push_back({operand(D, C.getArgOperand(i)), nslots(T)}); cx->argw.push_back(width(T));
        uint32_t bv = 0; if (C.isByValArgument(i)) bv = DL->getTypeAllocSize(C.getParamByValType(i));
        cx->byval.push_back(bv);
      }
      cx->nret = o.n; cx->retw = o.w; cx->isva = C.getFunctionType()->isVarArg(); cx->nfixed = C.getFunctionType()->getNumParams();
      if (cx->invoke) {
        auto &V = cast<InvokeInst>(I);
        D.fix.push_back({&cx->normal, {V.getParent(), V.getNormalDest()}});
        D.fix.push_back({&cx->unwind, {V.getParent(), V.getUnwindDest()}});
      }
      break;
    }
    case Instruction::AtomicRMW: { auto &A = cast<AtomicRMWInst>(I); o.op = O_RMW; o.a = P(0); o.b = P(1); o.sub = A.getOperation(); break; }
    case Instruction::AtomicCmpXchg: { o.op = O_CMPXCHG; o.a = P(0); o.b = P(1); o.c = P(2); o.w = W(1); break; }
    default: bad("opcode"); break;
    }
    code.push_back(o);
  }

  // ------------------------------------------------ frames
  void push(State &s, FnInfo *fi, const std::vector<Val> &args, const std::vector<Val> *va, const std::vector<uint8_t> *vw) {
    if (!fi->decoded) decode(fi);
    fi->executed = true;
    if (s.fr.size() >= opt_depth) crash(s, "stack overflow (recursion depth)");
    Frame f{fi, 0, (uint32_t)s.regs.size(), (uint32_t)s.allocas.size(), 0};
    s.regs.resize(f.rbase + fi->nregs);
    for (size_t i = 0; i < args.size() && (int)i < fi->nargslots; i++) s.regs[f.rbase + i] = args[i];
    if (va && !va->empty()) {
      uint64_t a = s.alloc(va->size() * 8, OF_STACK, 0); s.allocas.push_back(a);
      for (size_t i = 0; i < va->size(); i++) store(s, a + i * 8, (*vw)[i], (*va)[i]);
      f.va = a;
    } else if (fi->F->isVarArg()) { f.va = s.alloc(8, OF_STACK, 0); s.allocas.push_back(f.va); }
    s.fr.push_back(f);
  }
  void pop(State &s) {
    Frame &f = s.fr.back();
    while (s.allocas.size() > f.abase) { uint64_t a = s.allocas.back(); s.allocas.pop_back(); s.release((a - ABASE) >> ASH); }
    s.regs.resize(f.rbase); s.fr.pop_back();
  }
  void takeEdge(State &s, Edge *e) {
    Frame &f = s.fr.back(); Val *R = s.regs.data() + f.rbase; const Val *K = f.fn->K.data();
    size_t n = e->cp.size();
    if (n == 1) R[e->cp[0].first] = e->cp[0].second >= 0 ? R[e->cp[0].second] : K[~e->cp[0].second];
    else if (n) {
      static std::vector<Val> tmp; tmp.resize(n);
      for (size_t i = 0; i < n; i++) tmp[i] = e->cp[i].second >= 0 ? R[e->cp[i].second] : K[~e->cp[i].second];
      for (size_t i = 0; i < n; i++) R[e->cp[i].first] = tmp[i];
    }
    f.pc = e->pc;
  }

  // ------------------------------------------------ exceptions
  uint64_t gaddrByName(const char *n) { auto *g = M->getNamedValue(n); return g ? addrOf(g) : 0; }
  bool tiMatch(State &s, uint64_t thrown, uint64_t c) {
    static uint64_t si = gaddrByName("_ZTVN10__cxxabiv120__si_class_type_infoE");
    for (int i = 0; i < 8; i++) {
      if (thrown == c) return true;
      uint64_t id = (thrown - ABASE) >> ASH; Obj *o = thrown >= ABASE ? s.get(id) : nullptr;
      if (!o || o == FREED || o->size < 24) return false;
      Val vp = load(s, thrown, 64);
      if (si && vp.c == si + 16) thrown = load(s, thrown + 16, 64).c; else return false;
    }
    return false;
  }
  int typeidFor(uint64_t ti) { auto it = typeids.find(ti); if (it != typeids.end()) return it->second; int k = typeids.size() + 1; return typeids[ti] = k; }
  // unwind with exception object `obj`; current frame's pc is at the throwing call
  void unwind(State &s, uint64_t obj) {
    uint64_t ti = s.exc[obj].ti;
    std::vector<std::string> st = stack(s);
    while (!s.fr.empty()) {
      Frame &f = s.fr.back(); Ins &I = f.fn->code[f.pc];
      if (I.op == O_CALL && ((CallX *)I.x)->invoke) {
        CallX *cx = (CallX *)I.x; Ins &L = f.fn->code[cx->unwind.pc];
        if (L.op != O_LPAD) { set_incomplete("landing pad expected"); throw Kill{}; }
        LpX *lx = (LpX *)L.x; int sel = -1; if (lx->cleanup) sel = 0;
        for (int c : lx->catches) { uint64_t t = c >= 0 ? 0 : f.fn->K[~c].c; if (t == 0 || tiMatch(s, ti, t)) { sel = typeidFor(t); break; } }
        if (sel >= 0) {
          takeEdge(s, &cx->unwind);
          Frame &g = s.fr.back(); Val *R = s.regs.data() + g.rbase;
          R[L.dst] = {0, obj}; R[L.dst + 1] = {0, (uint64_t)sel};
          g.pc = cx->unwind.pc + 1;
          return;
        }
      }
      if (s.fr.size() == 1) break;
      pop(s);
    }
    violation(s, "crash", "uncaught exception", s.model);
    if (!viols.empty() && viols.back().msg == "uncaught exception" ) viols.back().stack = st;
    ST.errpaths++;
    throw Kill{};
  }
  void throwStd(State &s, const char *tiName) {
    uint64_t ti = gaddrByName(tiName);
    if (!ti) ti = 1;
    uint64_t a = s.alloc(64, OF_HEAP, 0);
    s.exc[a] = {ti, 0, 0};
    s.notes.push_back(std::string("threw ") + tiName);
    unwind(s, a);
  }

  // ------------------------------------------------ bulk memory
  void copy(State &s, uint64_t d, uint64_t src, uint64_t n) {
    if (!n) return;
    uint32_t so, dof; uint64_t si, di;
    Obj *a = find(s, src, n, false, so, si);
    find(s, d, n, true, dof, di);
    Obj *b = s.wobj(di);
    a = s.get(si);
    if (a->nb == 1 && b->nb == 1) {
      Blk *y = State::wblk(b, 0); Blk *x = a->b[0];
      memmove(y->d + dof, x->d + so, n);
      if (x->sym) { if (!y->sym) y->sym = (SB *)calloc(y->n, sizeof(SB)); memmove(y->sym + dof, x->sym + so, n * sizeof(SB)); }
      else if (y->sym) memset(y->sym + dof, 0, n * sizeof(SB));
      return;
    }
    std::vector<uint8_t> t(n); std::vector<SB> ts(n);
    for (uint64_t i = 0; i < n; i++) rdb(a, so + i, t[i], ts[i]);
    for (uint64_t i = 0; i < n; i++) wrb(b, dof + i, t[i], ts[i]);
  }
  void fill(State &s, uint64_t d, const Val &v, uint64_t n) {
    if (!n) return;
    uint32_t off; uint64_t id; find(s, d, n, true, off, id); Obj *o = s.wobj(id);
    if (!v.e) {
      for (uint64_t i = 0; i < n;) {
        Blk *b = State::wblk(o, (off + i) >> o->shift); uint32_t bo = (off + i) & ((1u << o->shift) - 1);
        uint64_t k = std::min<uint64_t>(n - i, b->n - bo); memset(b->d + bo, (int)v.c, k);
        if (b->sym) memset(b->sym + bo, 0, k * sizeof(SB));
        i += k;
      }
    } else for (uint64_t i = 0; i < n; i++) wrb(o, off + i, 0, {v.e, 0});
  }
  std::string cstr(State &s, uint64_t a) {
    std::string r; for (;; a++) { Val v = load(s, a, 8); if (v.e) { r += '?'; continue; } if (!v.c) break; r += (char)v.c; if (r.size() > 4096) break; } return r;
  }

  Val binop(State &s, EOp op, const Val &a, const Val &b, unsigned w) {
    if (!a.e && !b.e) {
      if ((op == E_SDIV || op == E_SREM || op == E_UDIV || op == E_UREM)) {
        if (b.c == 0) crash(s, "integer division by zero (SIGFPE)");
        if ((op == E_SDIV || op == E_SREM) && w >= 32 && b.c == mask(w) && a.c == 1ull << (w - 1)) crash(s, "integer division overflow (SIGFPE)");
      }
      uint64_t m = mask(w);
      switch (op) {
      case E_ADD: return {0, (a.c + b.c) & m}; case E_SUB: return {0, (a.c - b.c) & m}; case E_AND: return {0, a.c & b.c};
      case E_OR: return {0, a.c | b.c}; case E_XOR: return {0, a.c ^ b.c}; case E_MUL: return {0, (a.c * b.c) & m};
      default: { Expr t; t.op = op; t.w = w; t.a = t.b = nullptr; return {0, op_eval(&t, a.c, b.c, 0)}; }
      }
    }
    Expr *x = ex(a, w), *y = ex(b, w);
    if (op == E_SDIV || op == E_SREM || op == E_UDIV || op == E_UREM) {
      crash_if(s, X.bin(E_EQ, y, X.cst(0, w)), "integer division by zero (SIGFPE)");
      if ((op == E_SDIV || op == E_SREM) && w >= 32)
        crash_if(s, X.land(X.bin(E_EQ, y, X.cst(~0ull, w)), X.bin(E_EQ, x, X.cst(1ull << (w - 1), w))), "integer division overflow (SIGFPE)");
    }
    return val(X.bin(op, x, y));
  }
  Val icmp(unsigned pred, const Val &a, const Val &b, unsigned w) {
    if (!a.e && !b.e) {
      uint64_t x = a.c, y = b.c; int64_t p = sx(x, w), q = sx(y, w); bool r;
      switch (pred) {
      case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break;
      case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
      case CmpInst::ICMP_SGT: r = p > q; break; case CmpInst::ICMP_SGE: r = p >= q; break; case CmpInst::ICMP_SLT: r = p < q; break;
      default: r = p <= q; break;
      }
      return {0, r};
    }
    Expr *x = ex(a, w), *y = ex(b, w), *r;
    switch (pred) {
    case CmpInst::ICMP_EQ: r = X.bin(E_EQ, x, y); break; case CmpInst::ICMP_NE: r = X.lnot(X.bin(E_EQ, x, y)); break;
    case CmpInst::ICMP_UGT: r = X.bin(E_ULT, y, x); break; case CmpInst::ICMP_UGE: r = X.bin(E_ULE, y, x); break;
    case CmpInst::ICMP_ULT: r = X.bin(E_ULT, x, y); break; case CmpInst::ICMP_ULE: r = X.bin(E_ULE, x, y); break;
    case CmpInst::ICMP_SGT: r = X.bin(E_SLT, y, x); break; case CmpInst::ICMP_SGE: r = X.bin(E_SLE, y, x); break;
    case CmpInst::ICMP_SLT: r = X.bin(E_SLT, x, y); break; default: r = X.bin(E_SLE, x, y); break;
    }
    return val(r);
  }
  Val fcmp(unsigned p, const Val &a, const Val &b, unsigned w) {
    Expr *x = ex(a, w), *y = ex(b, w);
    Expr *uno = X.bin(E_FUNO, x, y), *eq = X.bin(E_FEQ, x, y), *lt = X.bin(E_FLT, x, y), *gt = X.bin(E_FLT, y, x), *le = X.bin(E_FLE, x, y), *ge = X.bin(E_FLE, y, x);
    switch (p) {
    case CmpInst::FCMP_FALSE: return {0, 0}; case CmpInst::FCMP_TRUE: return {0, 1};
    case CmpInst::FCMP_OEQ: return val(eq); case CmpInst::FCMP_OLT: return val(lt); case CmpInst::FCMP_OGT: return val(gt);
    case CmpInst::FCMP_OLE: return val(le); case CmpInst::FCMP_OGE: return val(ge); case CmpInst::FCMP_ORD: return val(X.lnot(uno));
    case CmpInst::FCMP_UNO: return val(uno); case CmpInst::FCMP_UEQ: return val(X.lor(uno, eq)); case CmpInst::FCMP_UNE: return val(X.lnot(eq));
    case CmpInst::FCMP_ONE: return val(X.land(X.lnot(uno), X.lnot(eq)));
    case CmpInst::FCMP_UGT: return val(X.lnot(le)); case CmpInst::FCMP_UGE: return val(X.lnot(lt));
    case CmpInst::FCMP_ULT: return val(X.lnot(ge)); case CmpInst::FCMP_ULE: return val(X.lnot(gt));
    }
    abort();
  }
  Val fcvt(unsigned opc, const Val &a, unsigned from, unsigned to) {
    Expr *x = ex(a, from);
    switch (opc) {
    case Instruction::FPExt: return val(X.un(E_FEXT, x, 64));
    case Instruction::FPTrunc: return val(X.un(E_FTRUNC, x, 32));
    case Instruction::FPToSI: return to < 32 ? val(X.extract(X.un(E_FTOS, x, 32), 0, to)) : val(X.un(E_FTOS, x, to));
    case Instruction::FPToUI: return to <= 32 ? val(X.extract(X.un(E_FTOS, x, 64), 0, to)) : val(X.un(E_FTOS, x, to));
    case Instruction::SIToFP: return val(X.un(E_STOF, x, to));
    default: return val(X.un(E_UTOF, x, to));
    }
  }
  // branch on a symbolic condition: returns the side for s, forking the other
  bool branch(State &s, Expr *c) {
    Model mt, mf; bool cur = X.ev(c, s.model), other;
    Model m; Expr *nc = X.lnot(c);
    other = may(s, cur ? nc : c, m);
    if (other) {
      State *t = forkst(s); t->model = m; add_pc(*t, cur ? nc : c);
      t->notes.push_back(""); t->notes.pop_back();
      pend = t; pendSide = !cur;
    }
    add_pc(s, cur ? c : nc);
    return cur;
  }
  State *pend = nullptr; bool pendSide = false;

  // ------------------------------------------------ main loop
  void run(State *sp) {
    State &s = *sp;
    cur = sp;
    try { exec(s); ST.paths++; if (samples.size() < 3 && !X.vars.empty()) sample(s); witness(s); }
    catch (Kill &) { ST.killed++; }
    ST.steps += s.steps;
    delete sp;
  }
  // a few finished paths are kept with their inputs and outputs for native replay
  void witness(State &s) {
    if (!(ST.paths <= 4 || ((ST.paths & (ST.paths - 1)) == 0) || (wits.size() < 24 && ST.paths % 37 == 0))) return;
    for (auto &v : s.outs) if (v.e && v.e->uf) return;
    for (auto &p : s.pcs) if (p->uf) return;
    Wit w; w.model = s.model; w.model.resize(X.vars.size());
    for (auto &v : s.outs) w.outs.push_back(v.e ? (uint32_t)X.ev(v.e, w.model) : (uint32_t)v.c);
    wits.push_back(w);
  }
  void sample(State &s) {
    std::string r; for (size_t i = 0; i < X.vars.size() && i < 24; i++) { char b[96]; snprintf(b, sizeof b, "%s%s=0x%llx", i ? " " : "", X.vars[i].name.c_str(), (unsigned long long)(i < s.model.size() ? s.model[i] : 0)); r += b; }
    samples.push_back(r);
  }
#define OP(i) ((i) >= 0 ? R[i] : K[~(i)])
  void exec(State &s) {
  reload:
    Frame *f = &s.fr.back(); Val *R = s.regs.data() + f->rbase; const Val *K = f->fn->K.data(); Ins *code = f->fn->code.data();
    for (;;) {
      Ins &I = code[f->pc];
      if (++s.steps >= opt_steps) { violation(s, "hang", "instruction limit reached", s.model); throw Kill{}; }
      if ((s.steps & 0xfffff) == 0 && now() - t_start > opt_time) { set_incomplete("time limit"); throw Kill{}; }
      if (opt_prof) f->fn->nexec++;
      switch (I.op) {
      case O_BIN: {
        const Val &a = OP(I.a), &b = OP(I.b);
        Val r;
        if (!a.e && !b.e && I.sub == E_ADD) r = {0, (a.c + b.c) & mask(I.w)};
        else r = binop(s, (EOp)I.sub, a, b, I.w);
        R[I.dst] = r; f->pc++; break;
      }
      case O_ICMP: R[I.dst] = icmp(I.sub, OP(I.a), OP(I.b), I.w); f->pc++; break;
      case O_FBIN: R[I.dst] = val(X.bin((EOp)I.sub, ex(OP(I.a), I.w), ex(OP(I.b), I.w))); f->pc++; break;
      case O_FCMP: R[I.dst] = fcmp(I.sub, OP(I.a), OP(I.b), I.w); f->pc++; break;
      case O_FNEG: R[I.dst] = val(X.bin(E_XOR, ex(OP(I.a), I.w), X.cst(1ull << (I.w - 1), I.w))); f->pc++; break;
      case O_TRUNC: { Val a = OP(I.a); R[I.dst] = a.e ? val(X.extract(a.e, 0, I.w)) : Val{0, a.c & mask(I.w)}; f->pc++; break; }
      case O_ZEXT: { Val a = OP(I.a); R[I.dst] = a.e ? val(X.zext(a.e, I.w)) : a; f->pc++; break; }
      case O_SEXT: { Val a = OP(I.a); R[I.dst] = a.e ? val(X.sext(a.e, I.w)) : Val{0, (uint64_t)sx(a.c, I.w2) & mask(I.w)}; f->pc++; break; }
      case O_FCVT: R[I.dst] = fcvt(I.imm, OP(I.a), I.w2, I.w); f->pc++; break;
      case O_MOVE:
        if (I.n == 1) R[I.dst] = OP(I.a);
        else for (int i = 0; i < I.n; i++) { int o = I.a >= 0 ? I.a + i : I.a - i; R[I.dst + i] = OP(o); }
        f->pc++; break;
      case O_SELECT: {
        Val c = OP(I.a);
        if (!c.e) { int src = c.c ? I.b : I.c; for (int i = 0; i < I.n; i++) { int o = src >= 0 ? src + i : src - i; R[I.dst + i] = OP(o); } f->pc++; break; }
        if (I.n != 1 || (I.I->getType()->isPointerTy())) {
          // fork rather than build pointer ites
          bool side = branch(s, c.e);
          if (pend) { pend->fr.back().pc = f->pc; work.push_back(pend); pend = nullptr; }
          int src = side ? I.b : I.c; for (int i = 0; i < I.n; i++) { int o = src >= 0 ? src + i : src - i; R[I.dst + i] = OP(o); }
          f->pc++; break;
        }
        R[I.dst] = val(X.ite(c.e, ex(OP(I.b), I.w), ex(OP(I.c), I.w))); f->pc++; break;
      }
      case O_LOAD: {
        auto &l = *(std::vector<Leaf> *)I.x; Val a = OP(I.a);
        if (I.n == 1 && !a.e) { R[I.dst] = load(s, a.c, l[0].w); f->pc++; break; }
        if (I.n == 1) { Val v = loadsym(s, a, l[0].w); R[I.dst] = v; f->pc++; break; }
        uint64_t c = concretize(s, a, 64);
        for (int i = 0; i < I.n; i++) R[I.dst + i] = load(s, c + l[i].off, l[i].w);
        f->pc++; break;
      }
      case O_STORE: {
        Val a = OP(I.b); auto &l = *(std::vector<Leaf> *)I.x;
        uint64_t c = a.e ? concretize(s, a, 64) : a.c;
        if (I.n == 1) store(s, c, l[0].w, OP(I.a));
        else for (int i = 0; i < I.n; i++) { int o = I.a >= 0 ? I.a + i : I.a - i; store(s, c + l[i].off, l[i].w, OP(o)); }
        f->pc++; break;
      }
      case O_GEPC: { Val a = OP(I.a); R[I.dst] = a.e ? val(X.bin(E_ADD, a.e, X.cst(I.imm, 64))) : Val{0, a.c + I.imm}; f->pc++; break; }
      case O_GEP: {
        Val a = OP(I.a); auto &g = *(GepX *)I.x; uint64_t acc = I.imm; Expr *se = nullptr;
        if (a.e) se = a.e; else acc += a.c;
        for (auto &t : g.t) {
          const Val &ix = OP(std::get<0>(t)); unsigned w = std::get<1>(t); int64_t sc = std::get<2>(t);
          if (!ix.e) acc += (uint64_t)sx(ix.c, w) * sc;
          else { Expr *x = X.bin(E_MUL, X.sext(ix.e, 64), X.cst(sc, 64)); se = se ? X.bin(E_ADD, se, x) : x; }
        }
        R[I.dst] = se ? val(X.bin(E_ADD, se, X.cst(acc, 64))) : Val{0, acc};
        f->pc++; break;
      }
      case O_ALLOCA: {
        uint64_t n = concretize(s, OP(I.a), 64); uint64_t a = s.alloc(std::max<uint64_t>(1, n * I.imm), OF_STACK, 0xCD);
        s.allocas.push_back(a); R[I.dst] = {0, a}; f->pc++; break;
      }
      case O_BR: takeEdge(s, (Edge *)I.x); break;
      case O_CBR: {
        Val c = OP(I.a);
        if (!c.e) { takeEdge(s, (Edge *)(c.c ? I.x : I.y)); break; }
        bool side = branch(s, c.e);
        if (pend) { State *t = pend; pend = nullptr; takeEdge(*t, (Edge *)(pendSide ? I.x : I.y)); work.push_back(t); }
        takeEdge(s, (Edge *)(side ? I.x : I.y));
        if (now() - t_start > opt_time) { set_incomplete("time limit"); throw Kill{}; }
        break;
      }
      case O_SWITCH: {
        Val c = OP(I.a); auto *x = (SwX *)I.x;
        if (!c.e) { auto it = x->m.find(c.c); takeEdge(s, it == x->m.end() ? x->def : it->second); break; }
        // group feasible cases by edge target
        Edge *taken = nullptr; uint64_t cv = X.ev(c.e, s.model); auto it0 = x->m.find(cv);
        Expr *none = X.tru(); std::map<int, std::pair<Edge *, Expr *>> grp; 
        bool phis = false;
        for (auto &p : x->v) if (!p.second->cp.empty()) phis = true;
        int gi = 0;
        for (auto &p : x->v) {
          Expr *eq = X.bin(E_EQ, c.e, X.cst(p.first, I.w)); none = X.land(none, X.lnot(eq));
          int k = phis ? gi++ : p.second->pc;
          auto g = grp.find(k); if (g == grp.end()) grp[k] = {p.second, eq}; else g->second.second = X.lor(g->second.second, eq);
        }
        int curk = -1; Edge *cure = nullptr; Expr *curc = nullptr;
        std::vector<std::pair<Edge *, Expr *>> alts; for (auto &g : grp) alts.push_back(g.second); alts.push_back({x->def, none});
        (void)it0; (void)curk;
        for (auto &al : alts) {
          if (!cure && X.ev(al.second, s.model)) { cure = al.first; curc = al.second; continue; }
          Model m;
          if (may(s, al.second, m)) { State *t = forkst(s); t->model = m; add_pc(*t, al.second); takeEdge(*t, al.first); work.push_back(t); }
        }
        taken = cure; add_pc(s, curc); takeEdge(s, taken);
        break;
      }
      case O_RET: {
        static std::vector<Val> rv; rv.clear();
        for (int i = 0; i < I.n; i++) { int o = I.a >= 0 ? I.a + i : I.a - i; rv.push_back(OP(o)); }
        pop(s);
        if (s.fr.empty()) return;
        Frame &g = s.fr.back(); Ins &C = g.fn->code[g.pc]; CallX *cx = (CallX *)C.x;
        Val *RR = s.regs.data() + g.rbase;
        if (C.dst >= 0) for (size_t i = 0; i < rv.size(); i++) RR[C.dst + i] = rv[i];
        if (cx->invoke) takeEdge(s, &cx->normal); else g.pc++;
        goto reload;
      }
      case O_UNREACH: crash(s, "reached unreachable code");
      case O_RESUME: {
        uint64_t obj = OP(I.a).c;
        if (s.fr.size() == 1) { violation(s, "crash", "uncaught exception", s.model); throw Kill{}; }
        pop(s); unwind(s, obj); goto reload;
      }
      case O_LPAD: f->pc++; break;
      case O_RMW: {
        uint64_t a = concretize(s, OP(I.a), 64); Val o = load(s, a, I.w), v = OP(I.b), n;
        switch (I.sub) {
        case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = binop(s, E_ADD, o, v, I.w); break;
        case AtomicRMWInst::Sub: n = binop(s, E_SUB, o, v, I.w); break; default: set_incomplete("atomicrmw"); throw Kill{};
        }
        store(s, a, I.w, n); R[I.dst] = o; f->pc++; break;
      }
      case O_CMPXCHG: {
        uint64_t a = concretize(s, OP(I.a), 64); Val o = load(s, a, I.w); Val eq = icmp(CmpInst::ICMP_EQ, o, OP(I.b), I.w);
        uint64_t e = concretize(s, eq, 1); if (e) store(s, a, I.w, OP(I.c)); R[I.dst] = o; R[I.dst + 1] = {0, e}; f->pc++; break;
      }
      case O_CALL: {
        CallX *cx = (CallX *)I.x; FnInfo *fi = cx->fn;
        if (cx->indirect) {
          uint64_t a = concretize(s, OP(cx->callee), 64); auto it = fnAt.find(a);
          if (it == fnAt.end()) crash(s, a < 65536 ? "call through null function pointer" : "call through wild pointer");
          fi = it->second;
        }
        if (fi->h || fi->F->isDeclaration()) {
          if (!fi->h) {
            if (fi->F->isMaterializable()) goto normal;
            set_incomplete("unmodelled external function " + fi->name); throw Kill{};
          }
          fi->executed = true;
          CallCtx c; c.ex = this; c.s = &s; c.cx = cx; c.ret = {0, 0}; c.threw = false;
          for (auto &a : cx->args) for (int i = 0; i < a.second; i++) { int o = a.first >= 0 ? a.first + i : a.first - i; c.a.push_back(OP(o)); }
          fi->h(c);
          if (c.threw) goto reload;
          f = &s.fr.back(); R = s.regs.data() + f->rbase;
          if (I.dst >= 0 && cx->nret == 1) R[I.dst] = c.ret;
          if (cx->invoke) takeEdge(s, &cx->normal); else f->pc++;
          break;
        }
      normal:
        static std::vector<Val> args, va; static std::vector<uint8_t> vw; args.clear(); va.clear(); vw.clear();
        bool isva = fi->F->isVarArg(); unsigned np = fi->F->arg_size();
        for (size_t k = 0; k < cx->args.size(); k++) {
          auto &a = cx->args[k];
          if (isva && k >= np) { va.push_back(OP(a.first)); vw.push_back(cx->argw[k]); continue; }
          if (cx->byval[k]) {
            uint64_t src = concretize(s, OP(a.first), 64); uint64_t d = s.alloc(cx->byval[k], OF_STACK, 0xCD);
            copy(s, d, src, cx->byval[k]); s.allocas.push_back(d); args.push_back({0, d}); continue; // lives until the caller returns
          }
          for (int i = 0; i < a.second; i++) { int o = a.first >= 0 ? a.first + i : a.first - i; args.push_back(OP(o)); }
        }
        push(s, fi, args, &va, &vw);
        goto reload;
      }
      case O_BAD:
        errs() << "nsym: unsupported (" << (const char *)I.x << "): " << *I.I << "\n";
        set_incomplete(std::string("unsupported instruction ") + (const char *)I.x); throw Kill{};
      default: abort();
      }
    }
  }

  // ------------------------------------------------ load module, globals
  State *boot(const char *path) {
    SMDiagnostic err; M = getLazyIRFileModule(path, err, ctx);
    if (!M) { err.print("nsym", errs()); exit(3); }
    if (Error e = M->materializeMetadata()) { errs() << "nsym: metadata\n"; exit(3); }
    DL = &M->getDataLayout();
    State *s = new State;
    s->mem.push_back((Chunk *)calloc(1, sizeof(Chunk))); s->mem[0]->rc = 1;
    for (auto &F : *M) info(&F);
    for (auto &G : M->globals()) {
      if (G.getName().starts_with("llvm.")) continue;
      uint64_t sz = DL->getTypeAllocSize(G.getValueType());
      if (!sz) sz = 1;
      if (G.isDeclaration() && sz < 256) sz = 256;
      gaddr[&G] = s->alloc(sz, OF_GLOBAL, 0);
    }
    for (auto &G : M->globals()) if (G.hasInitializer() && !G.getName().starts_with("llvm.")) initMem(*s, gaddr[&G], G.getInitializer());
    for (auto &G : M->globals()) if (G.isConstant() && !G.isDeclaration() && gaddr.count(&G)) s->wobj((gaddr[&G] - ABASE) >> ASH)->flags |= OF_RO;
    return s;
  }
};

#include "models.hpp"

static std::string jesc(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r + "\"";
}

int main(int argc, char **argv) {
  std::string bc, entry, out;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return argv[++i]; };
    if (a == "--time") opt_time = atof(nx()); else if (a == "--qtime") opt_qtimeout = atof(nx()); else if (a == "--atime") opt_atimeout = atof(nx());
    else if (a == "--steps") opt_steps = strtoull(nx(), 0, 10); else if (a == "--depth") opt_depth = atoi(nx());
    else if (a == "--arg") opt_args.push_back(atoll(nx())); else if (a == "--tier") opt_tier = atoi(nx());
    else if (a == "--out") out = nx(); else if (a == "--dump") opt_dump = nx(); else if (a == "--prof") opt_prof = true;
    else if (a == "--trace") opt_trace = true;
    else if (bc.empty()) bc = a; else entry = a;
  }
  t_start = now();
  setup_handlers();
  Z = new Z3Low;
  Exec E; State *s0 = E.boot(bc.c_str());
  double t_boot = now() - t_start;
  std::vector<std::string> run;
  // global constructors, then the entry
  std::vector<std::pair<int, Function *>> ctors;
  if (auto *G = E.M->getNamedGlobal("llvm.global_ctors")) if (auto *CA = dyn_cast<ConstantArray>(G->getInitializer()))
    for (auto &o : CA->operands()) { auto *cs = cast<ConstantStruct>(o); if (auto *F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
  Function *EF = E.M->getFunction(entry);
  if (!EF || (EF->isDeclaration() && !EF->isMaterializable())) { fprintf(stderr, "nsym: no entry %s\n", entry.c_str()); return 3; }
  try {
    for (auto &c : ctors) { E.cur = s0; E.push(*s0, E.info(c.second), {}, nullptr, nullptr); E.exec(*s0); }
    E.push(*s0, E.info(EF), {}, nullptr, nullptr);
    E.work.push_back(s0);
  } catch (Kill &) { set_incomplete("global constructors failed"); }
  while (!E.work.empty()) {
    State *s = E.work.back(); E.work.pop_back();
    if (now() - t_start > opt_time) { set_incomplete("time limit"); delete s; continue; }
    if (viols.size() >= opt_maxviol) { delete s; continue; }
    E.run(s);
  }
  FILE *o = out.empty() ? stdout : fopen(out.c_str(), "w");
  fprintf(o, "{\"entry\":%s,\"complete\":%s,\"why\":%s,\"paths\":%llu,\"killed\":%llu,\"errpaths\":%llu,\"forks\":%llu,\"steps\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cached\":%llu,\"domain\":%llu,\"bymodel\":%llu,\"solver_s\":%.3f,\"qmax_s\":%.3f,\"wall_s\":%.3f,\"boot_s\":%.3f,\"nvars\":%zu",
    jesc(entry).c_str(), incomplete ? "false" : "true", jesc(incomplete_why).c_str(), (unsigned long long)ST.paths, (unsigned long long)ST.killed, (unsigned long long)ST.errpaths, (unsigned long long)ST.forks, (unsigned long long)ST.steps, (unsigned long long)ST.q, (unsigned long long)ST.qsat, (unsigned long long)ST.qunsat, (unsigned long long)ST.qunk, (unsigned long long)ST.qcache, (unsigned long long)ST.qfast, (unsigned long long)ST.qmodel, ST.qtime, ST.qmax, now() - t_start, t_boot, X.vars.size());
  fprintf(o, ",\"checks\":{"); bool first = true;
  for (auto &c : checks) { fprintf(o, "%s%s:{\"reached\":%llu,\"folded\":%llu,\"solver\":%llu,\"failed\":%llu,\"undecided\":%llu}", first ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second.reached, (unsigned long long)c.second.konst, (unsigned long long)c.second.proved, (unsigned long long)c.second.failed, (unsigned long long)c.second.open); first = false; }
  fprintf(o, "},\"covers\":{"); first = true;
  for (auto &c : covers) { fprintf(o, "%s%s:%llu", first ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second); first = false; }
  fprintf(o, "},\"samples\":["); first = true;
  for (auto &c : samples) { fprintf(o, "%s%s", first ? "" : ",", jesc(c).c_str()); first = false; }
  fprintf(o, "],\"functions\":["); first = true;
  for (auto &p : E.fns) if (p.second->executed && p.second->F->getSubprogram()) {
    auto *sp = p.second->F->getSubprogram(); std::string fl = sp->getFilename().str();
    if (fl.find("/source/lib_") == std::string::npos) continue;
    std::string nm = p.second->name; int st; char *d = abi::__cxa_demangle(nm.c_str(), 0, 0, &st); if (d) { nm = d; free(d); }
    fprintf(o, "%s%s", first ? "" : ",", jesc(nm).c_str()); first = false;
  }
  fprintf(o, "],\"witnesses\":["); first = true;
  for (auto &w : wits) {
    fprintf(o, "%s{\"outs\":[", first ? "" : ","); first = false;
    bool f2 = true; for (auto x : w.outs) { fprintf(o, "%s%u", f2 ? "" : ",", x); f2 = false; }
    fprintf(o, "],\"inputs\":["); f2 = true;
    for (size_t i = 0; i < w.model.size(); i++) { fprintf(o, "%s[%s,%u,%u,%llu]", f2 ? "" : ",", jesc(X.vars[i].name).c_str(), X.vars[i].idx, X.vars[i].w, (unsigned long long)w.model[i]); f2 = false; }
    fprintf(o, "]}");
  }
  fprintf(o, "],\"violations\":["); first = true;
  for (auto &v : viols) {
    fprintf(o, "%s{\"kind\":%s,\"msg\":%s,\"site\":%s,\"stack\":[", first ? "" : ",", jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.site).c_str()); first = false;
    bool f2 = true; for (auto &x : v.stack) { fprintf(o, "%s%s", f2 ? "" : ",", jesc(x).c_str()); f2 = false; }
    fprintf(o, "],\"notes\":["); f2 = true; for (auto &x : v.notes) { fprintf(o, "%s%s", f2 ? "" : ",", jesc(x).c_str()); f2 = false; }
    fprintf(o, "],\"inputs\":["); f2 = true;
    for (size_t i = 0; i < X.vars.size(); i++) { fprintf(o, "%s[%s,%u,%u,%llu]", f2 ? "" : ",", jesc(X.vars[i].name).c_str(), X.vars[i].idx, X.vars[i].w, (unsigned long long)v.model[i]); f2 = false; }
    fprintf(o, "]}");
  }
  fprintf(o, "]}\n");
  if (!out.empty()) fclose(o);
  if (opt_prof) {
    std::vector<std::pair<uint64_t, std::string>> v; for (auto &p : E.fns) if (p.second->nexec) v.push_back({p.second->nexec, p.second->name});
    std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 30; i++) fprintf(stderr, "%12llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str());
  }
  fflush(o);
  _exit(0);
}
