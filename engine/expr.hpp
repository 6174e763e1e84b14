// Hash-consed bit-vector / IEEE float expression DAG with folding, evaluation,
// and lowering to z3.  Floats are carried as their bit patterns.
#pragma once
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3++.h>

enum EOp : uint8_t {
  E_CONST, E_VAR,
  E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
  E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
  E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
  E_ITE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT,
  E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FREM,
  E_FEQ, E_FLT, E_FLE, E_FUNO,
  E_FEXT, E_FTRUNC, E_FTOS, E_STOF, E_UTOF,
  E_FSQRT, E_FRND, E_UF
};

static const unsigned MAXV = 256;
struct VSet {
  uint64_t b[MAXV / 64] = {0, 0, 0, 0};
  bool hits(const VSet &o) const {
    for (unsigned i = 0; i < MAXV / 64; i++) if (b[i] & o.b[i]) return true;
    return false;
  }
  void add(const VSet &o) { for (unsigned i = 0; i < MAXV / 64; i++) b[i] |= o.b[i]; }
  void set(unsigned v) { b[v / 64] |= 1ull << (v % 64); }
  bool has(unsigned v) const { return b[v / 64] >> (v % 64) & 1; }
  int count() const { int n = 0; for (auto x : b) n += __builtin_popcountll(x); return n; }
  int single() const { // id if exactly one
    int r = -1;
    for (unsigned i = 0; i < MAXV / 64; i++) if (b[i]) {
      if (r >= 0 || (b[i] & (b[i] - 1))) return -1;
      r = int(i * 64 + __builtin_ctzll(b[i]));
    }
    return r;
  }
};
typedef std::array<uint64_t, 4> TT;

struct Expr {
  EOp op; uint8_t w; bool fp; bool uf;  // fp/uf: contains such a node
  uint32_t id;
  uint64_t v;  // const value, var id, extract low bit, rounding mode, UF kind
  Expr *a, *b, *c;
  VSet vs;
  TT *tt = nullptr;
  uint32_t ev_ep = 0; uint64_t ev_v = 0;
};

struct VarInfo { std::string name; unsigned w; unsigned idx; };
typedef std::vector<uint64_t> Model;  // by var id

static inline uint64_t mask(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline int64_t sx(uint64_t v, unsigned w) {
  return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w);
}
static inline float b2f(uint64_t v) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
static inline uint64_t f2b(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
static inline double b2d(uint64_t v) { double f; memcpy(&f, &v, 8); return f; }
static inline uint64_t d2b(double f) { uint64_t x; memcpy(&x, &f, 8); return x; }

static inline double uf_eval(unsigned kind, double x, bool f32) {
  switch (kind) {
  case 0: return f32 ? sinf((float)x) : sin(x);
  case 1: return f32 ? cosf((float)x) : cos(x);
  case 2: return f32 ? tanf((float)x) : tan(x);
  }
  return 0;
}
// rounding kinds for E_FRND
enum { R_FLOOR = 0, R_CEIL = 1, R_TRUNC = 2, R_ROUND = 3, R_EVEN = 4 };
static inline double rnd_eval(unsigned k, double x) {
  switch (k) {
  case R_FLOOR: return floor(x);
  case R_CEIL: return ceil(x);
  case R_TRUNC: return trunc(x);
  case R_ROUND: return round(x);
  default: return nearbyint(x);
  }
}

static inline uint64_t ftos_eval(double d, unsigned w) {
  double lim = ldexp(1.0, w - 1);
  if (!(d > -lim - 1 && d < lim)) return 1ull << (w - 1);
  return (uint64_t)(int64_t)d & mask(w);
}

// concrete semantics of a node given child values
static inline uint64_t op_eval(const Expr *e, uint64_t x, uint64_t y, uint64_t z) {
  unsigned w = e->w, aw = e->a ? e->a->w : 0;
  uint64_t m = mask(w);
  switch (e->op) {
  case E_ADD: return (x + y) & m;
  case E_SUB: return (x - y) & m;
  case E_MUL: return (x * y) & m;
  case E_UDIV: return y ? x / y : m;
  case E_UREM: return y ? x % y : x;
  case E_SDIV: { int64_t p = sx(x, w), q = sx(y, w);
    if (!q) return p < 0 ? 1 : m; if (q == -1) return (0 - x) & m; return (uint64_t)(p / q) & m; }
  case E_SREM: { int64_t p = sx(x, w), q = sx(y, w);
    if (!q) return x; if (q == -1) return 0; return (uint64_t)(p % q) & m; }
  case E_AND: return x & y;
  case E_OR: return x | y;
  case E_XOR: return x ^ y;
  case E_SHL: return y >= w ? 0 : (x << y) & m;
  case E_LSHR: return y >= w ? 0 : x >> y;
  case E_ASHR: return (uint64_t)(sx(x, w) >> (y >= w ? w - 1 : y)) & m;
  case E_EQ: return x == y;
  case E_ULT: return x < y;
  case E_ULE: return x <= y;
  case E_SLT: return sx(x, aw) < sx(y, aw);
  case E_SLE: return sx(x, aw) <= sx(y, aw);
  case E_ITE: return x ? y : z;
  case E_CONCAT: return (x << e->b->w) | y;
  case E_EXTRACT: return (x >> e->v) & m;
  case E_ZEXT: return x;
  case E_SEXT: return (uint64_t)sx(x, aw) & m;
  case E_FADD: return w == 32 ? f2b(b2f(x) + b2f(y)) : d2b(b2d(x) + b2d(y));
  case E_FSUB: return w == 32 ? f2b(b2f(x) - b2f(y)) : d2b(b2d(x) - b2d(y));
  case E_FMUL: return w == 32 ? f2b(b2f(x) * b2f(y)) : d2b(b2d(x) * b2d(y));
  case E_FDIV: return w == 32 ? f2b(b2f(x) / b2f(y)) : d2b(b2d(x) / b2d(y));
  case E_FREM: return w == 32 ? f2b(fmodf(b2f(x), b2f(y))) : d2b(fmod(b2d(x), b2d(y)));
  case E_FEQ: return aw == 32 ? b2f(x) == b2f(y) : b2d(x) == b2d(y);
  case E_FLT: return aw == 32 ? b2f(x) < b2f(y) : b2d(x) < b2d(y);
  case E_FLE: return aw == 32 ? b2f(x) <= b2f(y) : b2d(x) <= b2d(y);
  case E_FUNO: return aw == 32 ? (std::isnan(b2f(x)) || std::isnan(b2f(y)))
                               : (std::isnan(b2d(x)) || std::isnan(b2d(y)));
  case E_FEXT: return d2b((double)b2f(x));
  case E_FTRUNC: return f2b((float)b2d(x));
  case E_FTOS: return ftos_eval(aw == 32 ? b2f(x) : b2d(x), w);
  case E_STOF: return w == 32 ? f2b((float)sx(x, aw)) : d2b((double)sx(x, aw));
  case E_UTOF: return w == 32 ? f2b((float)x) : d2b((double)x);
  case E_FSQRT: return w == 32 ? f2b(sqrtf(b2f(x))) : d2b(sqrt(b2d(x)));
  case E_FRND: return w == 32 ? f2b((float)rnd_eval(e->v, b2f(x))) : d2b(rnd_eval(e->v, b2d(x)));
  case E_UF: return w == 32 ? f2b((float)uf_eval(e->v, b2f(x), true)) : d2b(uf_eval(e->v, b2d(x), false));
  default: abort();
  }
}

struct Exprs {
  struct Key { EOp op; uint8_t w; uint64_t v; Expr *a, *b, *c;
    bool operator==(const Key &o) const { return op == o.op && w == o.w && v == o.v && a == o.a && b == o.b && c == o.c; } };
  struct KH { size_t operator()(const Key &k) const {
    uint64_t h = k.op * 0x9E3779B97F4A7C15ull + k.w;
    auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
    mix(k.v); mix((uint64_t)k.a >> 4); mix((uint64_t)k.b >> 4); mix((uint64_t)k.c >> 4); return h; } };
  std::unordered_map<Key, Expr *, KH> tab;
  std::vector<VarInfo> vars;
  std::vector<Expr *> varexpr;
  uint32_t nid = 0, epoch = 0;

  Expr *mk(EOp op, unsigned w, Expr *a, Expr *b = nullptr, Expr *c = nullptr, uint64_t v = 0) {
    Key k{op, (uint8_t)w, v, a, b, c};
    auto it = tab.find(k);
    if (it != tab.end()) return it->second;
    Expr *e = new Expr;
    e->op = op; e->w = (uint8_t)w; e->v = v; e->a = a; e->b = b; e->c = c; e->id = nid++;
    e->fp = op >= E_FADD; e->uf = op == E_UF;
    for (Expr *x : {a, b, c}) if (x) { e->vs.add(x->vs); e->fp |= x->fp; e->uf |= x->uf; }
    tab.emplace(k, e);
    return e;
  }
  Expr *cst(uint64_t v, unsigned w) { return mk(E_CONST, w, 0, 0, 0, v & mask(w)); }
  Expr *tru() { return cst(1, 1); }
  Expr *fls() { return cst(0, 1); }
  Expr *newvar(const std::string &name, unsigned w, unsigned idx) {
    unsigned id = vars.size();
    if (id >= MAXV) { fprintf(stderr, "nsym: too many symbolic variables\n"); exit(3); }
    vars.push_back({name, w, idx});
    Expr *e = mk(E_VAR, w, 0, 0, 0, id);
    e->vs.set(id);
    varexpr.push_back(e);
    return e;
  }
  static bool isc(Expr *e) { return e->op == E_CONST; }
  static bool isc(Expr *e, uint64_t v) { return e->op == E_CONST && e->v == v; }
  bool isnot(Expr *e) { return e->w == 1 && e->op == E_XOR && isc(e->b, 1); }
  Expr *lnot(Expr *e) { return bin(E_XOR, e, tru()); }
  Expr *land(Expr *a, Expr *b) { return bin(E_AND, a, b); }
  Expr *lor(Expr *a, Expr *b) { return bin(E_OR, a, b); }

  Expr *fold(EOp op, unsigned w, Expr *a, Expr *b, Expr *c, uint64_t v) {
    Expr t; t.op = op; t.w = w; t.a = a; t.b = b; t.c = c; t.v = v;
    return cst(op_eval(&t, a->v, b ? b->v : 0, c ? c->v : 0), w);
  }
  // an upper bound on the unsigned value
  uint64_t umax(Expr *e, int d = 0) {
    uint64_t m = mask(e->w);
    if (d > 6) return m;
    switch (e->op) {
    case E_CONST: return e->v;
    case E_ZEXT: return umax(e->a, d + 1);
    case E_AND: return std::min(umax(e->a, d + 1), umax(e->b, d + 1));
    case E_ITE: return std::max(umax(e->b, d + 1), umax(e->c, d + 1));
    case E_LSHR: if (isc(e->b)) return e->b->v >= e->w ? 0 : umax(e->a, d + 1) >> e->b->v; return umax(e->a, d + 1);
    case E_UREM: if (isc(e->b) && e->b->v) return e->b->v - 1; return m;
    case E_UDIV: if (isc(e->b) && e->b->v) return umax(e->a, d + 1) / e->b->v; return m;
    case E_CONCAT: if (isc(e->a, 0)) return umax(e->b, d + 1); return m;
    case E_ADD: { uint64_t x = umax(e->a, d + 1), y = umax(e->b, d + 1), s = x + y; if (s < x || s > m) return m; return s; }
    default: return m;
    }
  }
  unsigned tz(Expr *e) {
    switch (e->op) {
    case E_CONST: return e->v ? __builtin_ctzll(e->v) : e->w;
    case E_CONCAT: { unsigned k = tz(e->b); return k == e->b->w ? k + tz(e->a) : k; }
    case E_ZEXT: { unsigned k = tz(e->a); return k == e->a->w ? e->w : k; }
    default: return 0;
    }
  }
  Expr *bin(EOp op, Expr *a, Expr *b) {
    unsigned w = (op >= E_EQ && op <= E_SLE) || (op >= E_FEQ && op <= E_FUNO) ? 1 : a->w;
    if (a->w != b->w) { fprintf(stderr, "nsym: width mismatch op %d %d %d\n", op, a->w, b->w); abort(); }
    if (isc(a) && isc(b)) return fold(op, w, a, b, nullptr, 0);
    uint64_t m = mask(a->w);
    switch (op) {
    case E_ADD:
      if (isc(a)) std::swap(a, b);
      if (isc(b, 0)) return a;
      if (isc(b) && a->op == E_ADD && isc(a->b)) return bin(E_ADD, a->a, cst(a->b->v + b->v, w));
      if (!isc(b) && a->op == E_ADD && isc(a->b)) return bin(E_ADD, bin(E_ADD, a->a, b), a->b);
      if (!isc(b) && b->op == E_ADD && isc(b->b)) return bin(E_ADD, bin(E_ADD, a, b->a), b->b);
      if (a->op == E_SUB && a->b == b) return a->a;
      if (!isc(b) && a->id > b->id) std::swap(a, b);
      break;
    case E_SUB:
      if (a == b) return cst(0, w);
      if (isc(b)) return bin(E_ADD, a, cst(0 - b->v, w));
      if (a->op == E_ADD && a->a == b) return a->b;
      if (a->op == E_ADD && a->b == b) return a->a;
      break;
    case E_MUL:
      if (isc(a)) std::swap(a, b);
      if (isc(b, 0)) return b;
      if (isc(b, 1)) return a;
      if (isc(b) && (b->v & (b->v - 1)) == 0) return bin(E_SHL, a, cst(__builtin_ctzll(b->v), w));
      if (!isc(b) && a->id > b->id) std::swap(a, b);
      break;
    case E_UDIV: if (isc(b, 1)) return a;
      if (isc(b) && b->v && (b->v & (b->v - 1)) == 0) return bin(E_LSHR, a, cst(__builtin_ctzll(b->v), w));
      break;
    case E_SDIV: if (isc(b, 1)) return a; break;
    case E_UREM: if (isc(b, 1)) return cst(0, w);
      if (isc(b) && b->v && (b->v & (b->v - 1)) == 0) return bin(E_AND, a, cst(b->v - 1, w));
      break;
    case E_SREM: if (isc(b, 1)) return cst(0, w); break;
    case E_AND:
      if (isc(a)) std::swap(a, b);
      if (isc(b, 0)) return b;
      if (isc(b, m)) return a;
      if (a == b) return a;
      if (w == 1 && (isnot(a) ? a->a == b : isnot(b) && b->a == a)) return cst(0, 1);
      if (isc(b) && a->op == E_AND && isc(a->b)) return bin(E_AND, a->a, cst(a->b->v & b->v, w));
      if (isc(b) && a->op == E_ZEXT && b->v >= mask(a->a->w) && (b->v & mask(a->a->w)) == mask(a->a->w)) return a;
      if (isc(b) && (b->v & (b->v + 1)) == 0) { // low mask
        unsigned k = __builtin_popcountll(b->v);
        return zext(extract(a, 0, k), w);
      }
      if (!isc(b) && a->id > b->id) std::swap(a, b);
      break;
    case E_OR:
      if (isc(a)) std::swap(a, b);
      if (isc(b, 0)) return a;
      if (isc(b, m)) return b;
      if (a == b) return a;
      if (w == 1 && (isnot(a) ? a->a == b : isnot(b) && b->a == a)) return cst(1, 1);
      // hi | lo with known-disjoint bits => concat
      for (int s = 0; s < 2 && w > 1; s++) {
        unsigned k = tz(b);
        if (k > 0 && k < w && umax(a) <= mask(k)) return concat(extract(b, k, w - k), extract(a, 0, k));
        std::swap(a, b);
      }
      if (isc(a)) std::swap(a, b);
      if (!isc(b) && a->id > b->id) std::swap(a, b);
      break;
    case E_XOR:
      if (isc(a)) std::swap(a, b);
      if (isc(b, 0)) return a;
      if (a == b) return cst(0, w);
      if (isc(b) && a->op == E_XOR && isc(a->b)) return bin(E_XOR, a->a, cst(a->b->v ^ b->v, w));
      if (w == 1 && isc(b, 1)) {
        // push negation into integer comparisons
        if (a->op == E_ULT) return bin(E_ULE, a->b, a->a);
        if (a->op == E_ULE) return bin(E_ULT, a->b, a->a);
        if (a->op == E_SLT) return bin(E_SLE, a->b, a->a);
        if (a->op == E_SLE) return bin(E_SLT, a->b, a->a);
        if (a->op == E_ITE && (isc(a->b) || isc(a->c))) return ite(a->a, lnot(a->b), lnot(a->c));
      }
      if (!isc(b) && a->id > b->id) std::swap(a, b);
      break;
    case E_SHL:
      if (isc(b, 0) || isc(a, 0)) return a;
      if (isc(b)) {
        if (b->v >= w) return cst(0, w);
        return concat(extract(a, 0, w - b->v), cst(0, b->v));
      }
      break;
    case E_LSHR:
      if (isc(b, 0) || isc(a, 0)) return a;
      if (isc(b)) {
        if (b->v >= w) return cst(0, w);
        return zext(extract(a, b->v, w - b->v), w);
      }
      break;
    case E_ASHR:
      if (isc(b, 0) || isc(a, 0)) return a;
      if (isc(b)) {
        uint64_t s = b->v >= w ? w - 1 : b->v;
        return sext(extract(a, s, w - s), w);
      }
      break;
    case E_EQ:
      if (a == b) return tru();
      if (isc(a)) std::swap(a, b);
      if (isc(b)) {
        if (a->w == 1) return b->v ? a : lnot(a);
        switch (a->op) {
        case E_ADD: if (isc(a->b)) return bin(E_EQ, a->a, cst(b->v - a->b->v, a->w)); break;
        case E_XOR: if (isc(a->b)) return bin(E_EQ, a->a, cst(b->v ^ a->b->v, a->w)); break;
        case E_SUB: if (isc(b, 0)) return bin(E_EQ, a->a, a->b); if (isc(a->a)) return bin(E_EQ, a->b, cst(a->a->v - b->v, a->w)); break;
        case E_ZEXT: if (b->v > mask(a->a->w)) return fls(); return bin(E_EQ, a->a, cst(b->v, a->a->w));
        case E_SEXT: { uint64_t lo = b->v & mask(a->a->w);
          if (((uint64_t)sx(lo, a->a->w) & m) != b->v) return fls(); return bin(E_EQ, a->a, cst(lo, a->a->w)); }
        case E_CONCAT: return land(bin(E_EQ, a->a, cst(b->v >> a->b->w, a->a->w)), bin(E_EQ, a->b, cst(b->v, a->b->w)));
        case E_ITE:
          if (isc(a->b) || isc(a->c)) {
            Expr *p = bin(E_EQ, a->b, b), *q = bin(E_EQ, a->c, b);
            if (isc(p) || isc(q)) return ite(a->a, p, q);
          }
          break;
        default: break;
        }
      } else {
        if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return bin(E_EQ, a->a, b->a);
        if (a->op == E_SEXT && b->op == E_SEXT && a->a->w == b->a->w) return bin(E_EQ, a->a, b->a);
        if (a->op == E_ADD && b->op == E_ADD && isc(a->b) && isc(b->b) && a->b == b->b) return bin(E_EQ, a->a, b->a);
        if (a->op == E_CONCAT && b->op == E_CONCAT && a->b->w == b->b->w)
          return land(bin(E_EQ, a->a, b->a), bin(E_EQ, a->b, b->b));
        if (a->id > b->id) std::swap(a, b);
      }
      break;
    case E_ULT:
      if (a == b) return fls();
      if (isc(b, 0)) return fls();
      if (isc(b, 1)) return bin(E_EQ, a, cst(0, a->w));
      if (isc(a) && a->v == m) return fls();
      if (isc(a, 0)) return lnot(bin(E_EQ, b, a));
      if (isc(b) && umax(a) < b->v) return tru();
      if (isc(a) && umax(b) <= a->v) return fls();
      if (isc(b) && a->op == E_ZEXT) return b->v > mask(a->a->w) ? tru() : bin(E_ULT, a->a, cst(b->v, a->a->w));
      if (isc(a) && b->op == E_ZEXT) return a->v >= mask(b->a->w) ? fls() : bin(E_ULT, cst(a->v, b->a->w), b->a);
      if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return bin(E_ULT, a->a, b->a);
      if (isc(b) && a->op == E_ITE && isc(a->b) && isc(a->c)) return ite(a->a, bin(op, a->b, b), bin(op, a->c, b));
      break;
    case E_ULE:
      if (a == b) return tru();
      if (isc(a, 0)) return tru();
      if (isc(b, 0)) return bin(E_EQ, a, b);
      if (isc(b) && umax(a) <= b->v) return tru();
      if (isc(a) && umax(b) < a->v) return fls();
      if (isc(b)) return b->v == m ? tru() : bin(E_ULT, a, cst(b->v + 1, b->w));
      if (isc(a)) return bin(E_ULT, cst(a->v - 1, a->w), b);
      if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return bin(E_ULE, a->a, b->a);
      break;
    case E_SLT: case E_SLE: {
      if (a == b) return op == E_SLE ? tru() : fls();
      uint64_t half = 1ull << (a->w - 1);
      auto nn = [&](Expr *e) { return isc(e) ? e->v < half : e->op == E_ZEXT || (e->op == E_CONCAT && isc(e->a, 0)) || umax(e) < half; };
      if (a->w > 1 && nn(a) && nn(b)) return bin(op == E_SLT ? E_ULT : E_ULE, a, b);
      if (isc(b) && b->v >= half && nn(a)) return fls();
      if (isc(a) && a->v >= half && nn(b)) return tru();
      if (op == E_SLE && isc(b)) return b->v == half - 1 ? tru() : bin(E_SLT, a, cst(b->v + 1, b->w));
      if (op == E_SLE && isc(a)) return a->v == half ? tru() : bin(E_SLT, cst(a->v - 1, a->w), b);
      if (op == E_SLT && isc(b) && b->v == half) return fls();
      if (op == E_SLT && isc(a) && a->v == half - 1) return fls();
      if (a->op == E_SEXT && b->op == E_SEXT && a->a->w == b->a->w) return bin(op, a->a, b->a);
      if (isc(b) && a->op == E_SEXT) {
        int64_t k = sx(b->v, b->w); unsigned n = a->a->w;
        int64_t lo = sx(1ull << (n - 1), n), hi = (int64_t)(mask(n) >> 1);
        if (k > hi) return tru(); if (k <= lo) return fls();
        return bin(op, a->a, cst((uint64_t)k, n));
      }
      if (isc(a) && b->op == E_SEXT) {
        int64_t k = sx(a->v, a->w); unsigned n = b->a->w;
        int64_t lo = sx(1ull << (n - 1), n), hi = (int64_t)(mask(n) >> 1);
        if (k >= hi) return fls(); if (k < lo) return tru();
        return bin(op, cst((uint64_t)k, n), b->a);
      }
      if (isc(b) && a->op == E_ITE && isc(a->b) && isc(a->c)) return ite(a->a, bin(op, a->b, b), bin(op, a->c, b));
      break;
    }
    case E_FADD: case E_FMUL: case E_FEQ: case E_FUNO:
      if (a->id > b->id) std::swap(a, b);
      break;
    default: break;
    }
    return mk(op, w, a, b);
  }
  Expr *ite(Expr *c, Expr *t, Expr *f) {
    if (isc(c)) return c->v ? t : f;
    if (t == f) return t;
    if (isnot(c)) return ite(c->a, f, t);
    if (t->w == 1) {
      if (isc(t, 1) && isc(f, 0)) return c;
      if (isc(t, 0) && isc(f, 1)) return lnot(c);
      if (isc(t, 0)) return land(lnot(c), f);
      if (isc(t, 1)) return lor(c, f);
      if (isc(f, 0)) return land(c, t);
      if (isc(f, 1)) return lor(lnot(c), t);
    }
    if (f->op == E_ITE && f->a == c) return ite(c, t, f->c);
    if (t->op == E_ITE && t->a == c) return ite(c, t->b, f);
    if (c->w == 1 && t->w > 1 && isc(t, 1) && isc(f, 0)) return zext(c, t->w);
    return mk(E_ITE, t->w, c, t, f);
  }
  Expr *extract(Expr *e, unsigned lo, unsigned w) {
    if (lo == 0 && w == e->w) return e;
    switch (e->op) {
    case E_CONST: return cst(e->v >> lo, w);
    case E_EXTRACT: return extract(e->a, e->v + lo, w);
    case E_CONCAT: {
      unsigned bw = e->b->w;
      if (lo >= bw) return extract(e->a, lo - bw, w);
      if (lo + w <= bw) return extract(e->b, lo, w);
      return concat(extract(e->a, 0, lo + w - bw), extract(e->b, lo, bw - lo));
    }
    case E_ZEXT: {
      unsigned bw = e->a->w;
      if (lo >= bw) return cst(0, w);
      if (lo + w <= bw) return extract(e->a, lo, w);
      return zext(extract(e->a, lo, bw - lo), w);
    }
    case E_SEXT: if (lo + w <= e->a->w) return extract(e->a, lo, w);
      if (lo == 0) return sext(e->a, w);
      break;
    case E_ITE:
      if (isc(e->b) || isc(e->c)) return ite(e->a, extract(e->b, lo, w), extract(e->c, lo, w));
      break;
    case E_AND: case E_OR: case E_XOR:
      if (isc(e->b)) return bin(e->op, extract(e->a, lo, w), extract(e->b, lo, w));
      break;
    case E_ADD: case E_SUB: case E_MUL:
      if (lo == 0) return bin(e->op, extract(e->a, 0, w), extract(e->b, 0, w));
      break;
    default: break;
    }
    return mk(E_EXTRACT, w, e, 0, 0, lo);
  }
  Expr *concat(Expr *h, Expr *l) {
    if (isc(h) && isc(l)) return cst((h->v << l->w) | l->v, h->w + l->w);
    if (isc(h, 0)) return zext(l, h->w + l->w);
    if (h->op == E_EXTRACT && l->op == E_EXTRACT && h->a == l->a && h->v == l->v + l->w)
      return extract(h->a, l->v, h->w + l->w);
    // the low part may have been narrowed through arithmetic
    if (h->op == E_EXTRACT && h->v >= l->w && !isc(l) && (h->a->op == E_ADD || h->a->op == E_SUB || h->a->op == E_MUL) && extract(h->a, h->v - l->w, l->w) == l)
      return extract(h->a, h->v - l->w, h->w + l->w);
    if (l->op == E_CONCAT && h->op == E_EXTRACT && l->a->op == E_EXTRACT && h->a == l->a->a && h->v == l->a->v + l->a->w)
      return concat(extract(h->a, l->a->v, h->w + l->a->w), l->b);
    if (l->op == E_CONCAT && isc(h) && isc(l->a)) return concat(concat(h, l->a), l->b);
    if (h->op == E_ZEXT) return zext(concat(h->a, l), h->w + l->w);
    return mk(E_CONCAT, h->w + l->w, h, l);
  }
  Expr *zext(Expr *e, unsigned w) {
    if (w == e->w) return e;
    if (isc(e)) return cst(e->v, w);
    if (e->op == E_ZEXT) return zext(e->a, w);
    if (e->op == E_ITE && isc(e->b) && isc(e->c)) return mkite_raw(e->a, cst(e->b->v, w), cst(e->c->v, w));
    return mk(E_ZEXT, w, e);
  }
  Expr *mkite_raw(Expr *c, Expr *t, Expr *f) { return mk(E_ITE, t->w, c, t, f); }
  Expr *sext(Expr *e, unsigned w) {
    if (w == e->w) return e;
    if (isc(e)) return cst((uint64_t)sx(e->v, e->w), w);
    if (e->op == E_ZEXT) return zext(e->a, w);
    if (e->op == E_SEXT) return sext(e->a, w);
    if (e->op == E_ITE && isc(e->b) && isc(e->c)) return mkite_raw(e->a, sext(e->b, w), sext(e->c, w));
    return mk(E_SEXT, w, e);
  }
  Expr *un(EOp op, Expr *a, unsigned w, uint64_t v = 0) {
    if (isc(a)) return fold(op, w, a, nullptr, nullptr, v);
    return mk(op, w, a, 0, 0, v);
  }

  // ---- evaluation under a model
  uint64_t ev(Expr *e, const Model &m) { ++epoch; return ev_(e, m); }
  uint64_t ev_(Expr *e, const Model &m) {
    if (e->op == E_CONST) return e->v;
    if (e->op == E_VAR) return e->v < m.size() ? m[e->v] : 0;
    if (e->ev_ep == epoch) return e->ev_v;
    uint64_t r;
    if (e->op == E_ITE) r = ev_(e->a, m) ? ev_(e->b, m) : ev_(e->c, m);
    else r = op_eval(e, ev_(e->a, m), e->b ? ev_(e->b, m) : 0, e->c ? ev_(e->c, m) : 0);
    e->ev_ep = epoch; e->ev_v = r;
    return r;
  }
  // truth table of a width-1 expr over one variable of <= 8 bits
  TT *truth(Expr *e) {
    if (e->tt) return e->tt;
    int v = e->vs.single();
    if (v < 0 || vars[v].w > 8 || e->w != 1) return nullptr;
    TT *t = new TT{0, 0, 0, 0};
    Model m(v + 1, 0);
    for (unsigned i = 0; i < (1u << vars[v].w); i++) {
      m[v] = i;
      if (ev(e, m)) (*t)[i / 64] |= 1ull << (i % 64);
    }
    e->tt = t;
    return t;
  }
};
extern Exprs X;

// ---------------------------------------------------------------- lowering
struct Z3Low {
  z3::context c;
  std::unordered_map<uint32_t, z3::expr> bv, fp;
  z3::expr rne, rtz, rtp, rtn, rna;
  Z3Low() : rne(c, Z3_mk_fpa_rne(c)), rtz(c, Z3_mk_fpa_rtz(c)), rtp(c, Z3_mk_fpa_rtp(c)),
            rtn(c, Z3_mk_fpa_rtn(c)), rna(c, Z3_mk_fpa_rna(c)) {}
  z3::sort fs(unsigned w) { return w == 32 ? z3::sort(c, Z3_mk_fpa_sort_32(c)) : z3::sort(c, Z3_mk_fpa_sort_64(c)); }
  z3::expr b2bv(const z3::expr &b) { return z3::ite(b, c.bv_val(1, 1), c.bv_val(0, 1)); }
  // boolean form
  std::unordered_map<uint32_t, z3::expr> bl;
  z3::expr B(Expr *e) {
    auto it = bl.find(e->id);
    if (it != bl.end()) return it->second;
    z3::expr r(c);
    switch (e->op) {
    case E_CONST: r = c.bool_val(e->v != 0); break;
    case E_EQ: r = e->a->w == 1 ? (B(e->a) == B(e->b)) : (V(e->a) == V(e->b)); break;
    case E_ULT: r = z3::ult(V(e->a), V(e->b)); break;
    case E_ULE: r = z3::ule(V(e->a), V(e->b)); break;
    case E_SLT: r = z3::slt(V(e->a), V(e->b)); break;
    case E_SLE: r = z3::sle(V(e->a), V(e->b)); break;
    case E_AND: r = B(e->a) && B(e->b); break;
    case E_OR: r = B(e->a) || B(e->b); break;
    case E_XOR: r = X.isnot(e) ? !B(e->a) : (B(e->a) != B(e->b)); break;
    case E_ITE: r = z3::ite(B(e->a), B(e->b), B(e->c)); break;
    case E_FEQ: r = z3::expr(c, Z3_mk_fpa_eq(c, F(e->a), F(e->b))); break;
    case E_FLT: r = z3::expr(c, Z3_mk_fpa_lt(c, F(e->a), F(e->b))); break;
    case E_FLE: r = z3::expr(c, Z3_mk_fpa_leq(c, F(e->a), F(e->b))); break;
    case E_FUNO: r = z3::expr(c, Z3_mk_fpa_is_nan(c, F(e->a))) || z3::expr(c, Z3_mk_fpa_is_nan(c, F(e->b))); break;
    default: r = V(e) == c.bv_val(1, 1); break;
    }
    bl.emplace(e->id, r);
    return r;
  }
  z3::expr V(Expr *e) {
    auto it = bv.find(e->id);
    if (it != bv.end()) return it->second;
    z3::expr r(c);
    switch (e->op) {
    case E_CONST: r = c.bv_val((uint64_t)e->v, e->w); break;
    case E_VAR: r = c.bv_const(("v" + std::to_string(e->v)).c_str(), e->w); break;
    case E_ADD: r = V(e->a) + V(e->b); break;
    case E_SUB: r = V(e->a) - V(e->b); break;
    case E_MUL: r = V(e->a) * V(e->b); break;
    case E_UDIV: r = z3::udiv(V(e->a), V(e->b)); break;
    case E_SDIV: r = V(e->a) / V(e->b); break;
    case E_UREM: r = z3::urem(V(e->a), V(e->b)); break;
    case E_SREM: r = z3::srem(V(e->a), V(e->b)); break;
    case E_AND: r = e->w == 1 ? b2bv(B(e)) : (V(e->a) & V(e->b)); break;
    case E_OR: r = e->w == 1 ? b2bv(B(e)) : (V(e->a) | V(e->b)); break;
    case E_XOR: r = e->w == 1 ? b2bv(B(e)) : (V(e->a) ^ V(e->b)); break;
    case E_SHL: r = z3::shl(V(e->a), V(e->b)); break;
    case E_LSHR: r = z3::lshr(V(e->a), V(e->b)); break;
    case E_ASHR: r = z3::ashr(V(e->a), V(e->b)); break;
    case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE:
    case E_FEQ: case E_FLT: case E_FLE: case E_FUNO: r = b2bv(B(e)); break;
    case E_ITE: r = z3::ite(B(e->a), V(e->b), V(e->c)); break;
    case E_CONCAT: r = z3::concat(V(e->a), V(e->b)); break;
    case E_EXTRACT: r = V(e->a).extract(e->v + e->w - 1, e->v); break;
    case E_ZEXT: r = z3::zext(V(e->a), e->w - e->a->w); break;
    case E_SEXT: r = z3::sext(V(e->a), e->w - e->a->w); break;
    case E_FTOS: {
      z3::expr f = F(e->a);
      unsigned aw = e->a->w;
      double lim = ldexp(1.0, e->w - 1);
      auto num = [&](double d) { return z3::expr(c, aw == 32 ? Z3_mk_fpa_numeral_float(c, (float)d, fs(32)) : Z3_mk_fpa_numeral_double(c, d, fs(64))); };
      z3::expr hi = z3::expr(c, Z3_mk_fpa_lt(c, f, num(lim)));
      // lower limit: > -lim-1 ; for formats that cannot represent -lim-1, >= -lim
      z3::expr lo = (aw == 64 && e->w == 32) ? z3::expr(c, Z3_mk_fpa_gt(c, f, num(-lim - 1)))
                                             : z3::expr(c, Z3_mk_fpa_geq(c, f, num(-lim)));
      r = z3::ite(hi && lo, z3::expr(c, Z3_mk_fpa_to_sbv(c, rtz, f, e->w)), c.bv_val((uint64_t)(1ull << (e->w - 1)), e->w));
      break;
    }
    default: // float-valued: through the FP form
      r = z3::expr(c, Z3_mk_fpa_to_ieee_bv(c, F(e))); break;
    }
    bv.emplace(e->id, r);
    return r;
  }
  z3::expr F(Expr *e) {
    auto it = fp.find(e->id);
    if (it != fp.end()) return it->second;
    z3::expr r(c);
    switch (e->op) {
    case E_FREM: fprintf(stderr, "nsym: frem unsupported\n"); exit(3);
    case E_FADD: r = z3::expr(c, Z3_mk_fpa_add(c, rne, F(e->a), F(e->b))); break;
    case E_FSUB: r = z3::expr(c, Z3_mk_fpa_sub(c, rne, F(e->a), F(e->b))); break;
    case E_FMUL: r = z3::expr(c, Z3_mk_fpa_mul(c, rne, F(e->a), F(e->b))); break;
    case E_FDIV: r = z3::expr(c, Z3_mk_fpa_div(c, rne, F(e->a), F(e->b))); break;
    case E_FEXT: r = z3::expr(c, Z3_mk_fpa_to_fp_float(c, rne, F(e->a), fs(64))); break;
    case E_FTRUNC: r = z3::expr(c, Z3_mk_fpa_to_fp_float(c, rne, F(e->a), fs(32))); break;
    case E_STOF: r = z3::expr(c, Z3_mk_fpa_to_fp_signed(c, rne, V(e->a), fs(e->w))); break;
    case E_UTOF: r = z3::expr(c, Z3_mk_fpa_to_fp_unsigned(c, rne, V(e->a), fs(e->w))); break;
    case E_FSQRT: r = z3::expr(c, Z3_mk_fpa_sqrt(c, rne, F(e->a))); break;
    case E_FRND: {
      z3::expr &m = e->v == R_FLOOR ? rtn : e->v == R_CEIL ? rtp : e->v == R_TRUNC ? rtz : e->v == R_ROUND ? rna : rne;
      r = z3::expr(c, Z3_mk_fpa_round_to_integral(c, m, F(e->a))); break;
    }
    case E_UF: {
      z3::sort s = fs(e->w);
      static const char *nm[] = {"sin", "cos", "tan"};
      z3::func_decl f = c.function((std::string(nm[e->v]) + std::to_string(e->w)).c_str(), s, s);
      r = f(F(e->a)); break;
    }
    case E_ITE: r = z3::ite(B(e->a), F(e->b), F(e->c)); break;
    default: r = z3::expr(c, Z3_mk_fpa_to_fp_bv(c, V(e), fs(e->w))); break;
    }
    fp.emplace(e->id, r);
    return r;
  }
};
