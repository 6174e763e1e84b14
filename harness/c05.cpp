// C05: the optimiser changes nothing
#include "shapes.hpp"
#include "mix.hpp"
using namespace ref;
static const char *OPS[] = {"+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "and", "or"};

// value of an expression made of integer literals and constants only
static bool konst(const Prog &p, const Node *n, int32_t &v, bool &div0) {
  int32_t a, b;
  switch (n->k) {
  case INT: v = n->i; return true;
  case VAR: for (Node *g : p.globals) if (g->i && g->s == n->s && g->c[0]) return konst(p, g->c[0], v, div0); return false;
  case NEG: if (!konst(p, n->c[0], a, div0)) return false; v = (int32_t)(0u - (uint32_t)a); return true;
  case NOT: if (!konst(p, n->c[0], a, div0)) return false; v = !a; return true;
  case BIN: {
    bool x = konst(p, n->c[0], a, div0), y = konst(p, n->c[1], b, div0);
    if (!x || !y) return false;
    if ((n->s == "/" || n->s == "%") && b == 0) { div0 = true; return false; }
    Prog e; Interp I(e); v = I.binop(n->s, Val::Int(a), Val::Int(b)).i; return true;
  }
  default: return false;
  }
}
static void walk(const Prog &p, const Node *n, bool &div0) {
  if (!n) return;
  int32_t v; konst(p, n, v, div0);
  for (Node *c : n->c) walk(p, c, div0);
}
static bool has_div0(Prog &p) {
  bool d = false;
  for (Node *g : p.globals) walk(p, g, d);
  for (auto &f : p.funcs) walk(p, f.body, d);
  return d;
}
static void cmp(const Out &x, const Out &y, const char *m) {
  nsym_check(x.init_ok == y.init_ok, m);
  nsym_check(x.ok == y.ok, m);
  if (x.ok != y.ok) return;
  if (x.ok) nsym_check(same(x.v, y.v), m); else nsym_check(x.err == y.err, m);
  nsym_check(x.trace.size() == y.trace.size(), m);
  for (size_t k = 0; k < x.trace.size() && k < y.trace.size(); k++) nsym_check(same(x.trace[k], y.trace[k]), m);
}
// run with and without the optimiser and against the meaning
static void both(Prog &p, const std::vector<Val> &args) {
  static const char *M = "the optimised program behaves like the unoptimised one", *R = "both behave as the program means";
  Interp I(p); I.init();
  bool ib = I.bad(); Val want;
  if (!ib) want = I.run("main", args);
  std::string src = text(p); nsym_note(src.c_str());
  bool d0 = has_div0(p);
  Out o1, o0; std::string m1, m0;
  bool c1 = real(src, "main", args, o1, true, &m1), c0 = real(src, "main", args, o0, false, &m0);
  if (!c1 || !c0) {
    nsym_check(d0 && !c1, "only a constant division by constant zero is rejected");
    return;
  }
  cmp(o1, o0, M);
  Out w; w.init_ok = !ib; w.ok = !ib && !I.bad(); w.err = ib ? thread_error_t::e_success : I.err; w.v = want; w.trace = I.trace;
  if (w.ok && want.t == val_type_array) w.v.i = (int)I.heap[want.i].size();
  if (ib) nsym_check(!o1.init_ok, R); else cmp(o1, w, R);
}
static std::vector<Val> args3() { return {Val::Int(nsym_int("a")), Val::Int(nsym_int("b")), Val::Int(nsym_int("c"))}; }
// an integer literal with any value (sent through the text as digits)
static Node *klit(const char *nm, int nd) {
  Node *n = mk(FLT); uint32_t v = 0;          // printed verbatim
  for (int i = 0; i < nd; i++) { unsigned char c = nsym_u8(nm); nsym_assume(c >= '0' && c <= '9'); n->s += (char)c; v = v * 10 + (c - '0'); }
  n->k = INT; n->i = (int32_t)v; return n;
}

// ---- expressions: every operator over constants and variables ----
static Node *leaf(int k, const char *nm) {
  switch (k) {
  case 0: return lit(0);
  case 1: return lit(1);
  case 2: return lit(7);
  case 3: return lit((int32_t)0x80000000);
  case 4: return neg(lit(1));
  case 5: return var(nm);
  case 6: return call("t", {var(nm)});
  case 7: return lnot(lit(3));
  case 8: return flt("2.5");
  case 9: return str("s");
  case 10: return none();
  case 11: return var("K");
  case 12: return flt("0.0");
  case 13: return str("");
  case 14: return neg(lit(5));
  }
  return lit(2);
}
enum { NLEAF = 15 };
static Node *ctx(int k, Node *e) {
  switch (k) {
  case 0: return block({ret(e)});
  case 1: return block({if_(e, block({tr(lit(1))}), block({tr(lit(2))})), ret(var("a"))});
  case 2: return block({decl("n", lit(0)), while_(e, block({comp("n", "+", lit(1)), if_(bin("==", var("n"), lit(2)), block({ret(var("n"))})), tr(var("n"))})), ret(lit(9))});
  case 3: return block({decl("x", e), tr(var("x")), ret(var("x"))});
  case 4: return block({decl("x"), set("x", e), comp("x", "+", lit(1)), ret(var("x"))});
  case 5: return block({tr(e), ret(none())});
  case 6: return block({decl("r", arr({lit(4), e, var("b")})), ret(idx(var("r"), lit(1)))});
  case 7: return block({set("G", e), ret(var("G"))});
  case 8: return block({decl("r", arr({lit(4), lit(5), lit(6)})), seta("r", lit(2), e), ret(idx(var("r"), lit(2)))});
  case 9: return block({decl("r", arr({lit(4), lit(5), lit(6)})), ret(idx(var("r"), e))});
  case 10: return block({decl("i"), for_("i", lit(0), e, block({tr(var("i")), if_(bin("==", var("i"), lit(2)), block({ret(lit(3))}))})), ret(var("i"))});
  case 11: return block({ret(call("f", {var("b"), e}))});
  case 12: return block({if_(bin("and", var("a"), e), block({tr(lit(1))})), ret(bin("-", e, lit(1)))});
  case 13: return block({ret(neg(e))});
  case 14: return block({ret(lnot(e))});
  }
  return nullptr;
}
enum { NCTX = 15 };
static void base(Prog &p) {
  p.konst("K", lit(6)); p.konst("Z", lit(0)); p.global("G", lit(3));
  p.fn("f", {"x", "y"}, block({tr(var("x")), ret(var("y"))}));
}
// one operator between all kinds of operands, in every context
extern "C" void c05_one() {
  int op = nsym_arg(0), l = nsym_choose("l", NLEAF), r = nsym_choose("r", NLEAF), c = nsym_choose("c", nsym_tier() ? NCTX : 6);
  Prog p; base(p);
  p.fn("main", {"a", "b", "c"}, ctx(c, bin(OPS[op], leaf(l, "a"), leaf(r, "b"))));
  auto av = args3();
  if (op == 0 && (l == 9 || l == 13 || r == 9 || r == 13)) for (auto &x : av) nsym_assume(x.i >= -9 && x.i <= 99);  // shown as text
  both(p, av);
}
//@ entry c05_one args=0-11 time=200
// contexts with fewer operands
extern "C" void c05_ctx() {
  int c = nsym_arg(0), op = nsym_choose("op", 12), l = nsym_choose("l", 6), r = nsym_choose("r", 6);
  static const int S[] = {0, 1, 4, 5, 6, 11};
  Prog p; base(p);
  p.fn("main", {"a", "b", "c"}, ctx(c, bin(OPS[op], leaf(S[l], "a"), leaf(S[r], "b"))));
  both(p, args3());
}
//@ entry c05_ctx args=0-14 time=200
// two operators: partly constant trees, both shapes, prefix operators
extern "C" void c05_two() {
  int op = nsym_arg(0), o2 = nsym_choose("o2", 12), sh = nsym_choose("sh", 2), pf = nsym_choose("pf", 3);
  static const int S[] = {0, 5, 2, 4}, Q[] = {4, 5, 0, 2};
  int n = nsym_tier() ? 4 : 3;
  Node *x = leaf(S[nsym_choose("l", n)], "a"), *y = leaf(S[nsym_choose("r", n)], "b"), *z = leaf(Q[nsym_choose("q", n - 1)], "c");
  Node *in = bin(OPS[op], sh ? y : x, sh ? z : y);
  if (pf == 1) in = neg(in); else if (pf == 2) in = lnot(in);
  Node *e = sh ? bin(OPS[o2], x, in) : bin(OPS[o2], in, z);
  Prog p; base(p); p.fn("main", {"a", "b", "c"}, block({ret(e)}));
  both(p, args3());
}
//@ entry c05_two args=0-11 time=200
// all values of the constants: literals of symbolic digits
extern "C" void c05_val() {
  int op = nsym_arg(0), c = nsym_choose("c", 4), nl = nsym_choose("nl", 2), nr = nsym_choose("nr", 2), sg = nsym_choose("sg", 4);
  Node *l = klit("l", nl ? 10 : 2), *r = klit("r", nr ? 10 : 1);
  if (sg & 1) l = neg(l);
  if (sg & 2) r = neg(r);
  Prog p; base(p); p.fn("main", {"a", "b", "c"}, ctx(c == 3 ? 12 : c, bin(OPS[op], l, r)));
  both(p, args3());
}
//@ entry c05_val args=0-11 time=200

// ---- dead code: constant conditions of every value, nested, with else and loops ----
static Node *cond(int k) {
  switch (k) {
  case 0: return lit(0);
  case 1: return lit(1);
  case 2: return lit(2);
  case 3: return var("a");
  case 4: return neg(lit(1));
  case 5: return bin("-", lit(3), lit(3));
  case 6: return var("Z");
  case 7: return var("K");
  case 8: return flt("0.0");
  case 9: return str("");
  case 10: return none();
  case 11: return lnot(lit(0));
  case 12: return bin("<", lit(1), lit(2));
  case 13: return lit((int32_t)0x80000000u);
  case 14: return call("t", {lit(0)});
  case 15: return bin("and", lit(0), call("t", {lit(1)}));
  case 16: return bin("or", call("t", {lit(1)}), lit(1));
  case 17: return flt("0.5");
  }
  return lit(1);
}
enum { NCOND = 18 };
extern "C" void c05_dead() {
  int c1 = nsym_arg(0), c2 = nsym_choose("c2", NCOND), sh = nsym_choose("sh", 6), el = nsym_choose("el", 4);
  Node *in = if_(cond(c2), block({tr(lit(1)), decl("u", var("b")), tr(var("u"))}), el & 1 ? block({tr(lit(2))}) : nullptr);
  Node *out = nullptr;
  switch (sh) {
  case 0: out = if_(cond(c1), block({tr(lit(3)), in, tr(lit(4))}), el & 2 ? block({tr(lit(5))}) : nullptr); break;
  case 1: out = if_(cond(c1), block({tr(lit(3))}), block({tr(lit(5)), in})); break;
  case 2: out = block({if_(cond(c1), block({ret(lit(10))}), el & 2 ? block({ret(lit(11))}) : nullptr), in}); break;
  case 3: out = block({decl("n", lit(0)), while_(cond(c1), block({comp("n", "+", lit(1)), in, if_(bin("==", var("n"), lit(2)), block({ret(lit(20))}))}))}); break;
  case 4: out = block({if_(cond(c1), block({})), if_(cond(c2), block({}), block({})), in}); break;
  case 5: out = block({if_(cond(c1), block({decl("x", lit(1)), tr(var("x"))}), block({decl("x", lit(2)), tr(var("x"))})), decl("y", lit(3)), tr(var("y")), in}); break;
  }
  Prog p; base(p);
  p.fn("main", {"a", "b", "c"}, block({out, tr(lit(6)), ret(bin("+", var("a"), var("Z")))}));
  both(p, args3());
}
//@ entry c05_dead args=0-17 time=200

// ---- code after return: in any block, with declarations and nested blocks ----
extern "C" void c05_ret() {
  int sh = nsym_arg(0), after = nsym_choose("after", 6), rv = nsym_choose("rv", 3);
  Node *r = rv == 0 ? ret() : rv == 1 ? ret(var("a")) : ret(call("t", {lit(4)}));
  std::vector<Node *> tail;
  switch (after) {
  case 0: tail = {tr(lit(1))}; break;
  case 1: tail = {decl("u", lit(3)), tr(var("u"))}; break;
  case 2: tail = {if_(var("b"), block({tr(lit(1))}), block({tr(lit(2))}))}; break;
  case 3: tail = {ret(lit(99))}; break;
  case 4: tail = {while_(var("b"), block({tr(lit(1))}))}; break;
  case 5: tail = {set("G", lit(50)), do_(call("f", {lit(1), lit(2)}))}; break;
  }
  std::vector<Node *> b = {r}; b.insert(b.end(), tail.begin(), tail.end());
  Node *body = nullptr;
  switch (sh) {
  case 0: body = block(b); break;
  case 1: body = block({if_(var("a"), block(b)), tr(lit(7)), ret(lit(8))}); break;
  case 2: body = block({if_(var("a"), block({tr(lit(1))}), block(b)), tr(lit(7)), ret(lit(8))}); break;
  case 3: body = block({while_(var("a"), block(b)), tr(lit(7)), ret(lit(8))}); break;
  case 4: body = block({decl("i", lit(0)), for_("i", lit(0), lit(3), block(b)), ret(lit(8))}); break;
  case 5: body = block({if_(lit(1), block(b)), tr(lit(7)), ret(lit(8))}); break;
  case 6: body = block({if_(lit(0), block(b)), tr(lit(7)), ret(lit(8))}); break;
  case 7: body = block({if_(var("a"), block({if_(var("b"), block(b)), tr(lit(3))}), block({ret(lit(2))})), tr(lit(7)), ret(lit(8))}); break;
  case 8: body = block({while_(lit(0), block(b)), tr(lit(7)), ret(lit(8))}); break;
  case 9: body = block({if_(var("Z"), block(b), block({tr(lit(3))})), decl("q", var("Z")), tr(var("Z")), if_(var("Z"), block({tr(lit(11))})), ret(var("q"))}); break;
  }
  Prog p; base(p); p.fn("main", {"a", "b", "c"}, body);
  p.fn("last", {}, block({ret(lit(1))}));
  both(p, args3());
}
//@ entry c05_ret args=0-9 time=200

// ---- every body of up to four statements, and of three with constant conditions ----
extern "C" void c05_shapes() {
  int g = nsym_arg(1), k = g >= 7;
  Shapes S(k ? 3 : nsym_tier() ? 5 : 4, k); Node *b = S.body(nsym_arg(0), g % 7);
  Prog p; base(p); p.fn("main", {"a", "b", "c"}, b);
  p.fn("last", {}, block({tr(lit(99)), ret(lit(1))}));
  both(p, args3());
}
//@ entry c05_shapes args=0-5 args1=0-13 time=200

// ---- a constant shared by many uses stays the same at all of them ----
extern "C" void c05_share() {
  int kv = nsym_choose("kv", 4), s1 = nsym_arg(0), s2 = nsym_choose("s2", 7), s3 = nsym_choose("s3", 7);
  Prog p; p.konst("K", kv == 0 ? lit(0) : kv == 1 ? lit(1) : kv == 2 ? lit(5) : neg(lit(2))); p.global("G", var("K"));
  p.konst("L", bin("*", var("K"), lit(3)));
  auto use = [&](int s) -> Node * {
    switch (s) {
    case 0: return if_(var("K"), block({tr(lit(1))}), block({tr(lit(2))}));
    case 1: return if_(var("K"), block({tr(lit(3))}));
    case 2: return tr(var("K"));
    case 3: return tr(bin("+", var("K"), var("L")));
    case 4: return while_(var("K"), block({ret(lit(8))}));
    case 5: return if_(bin("==", var("K"), lit(0)), block({tr(var("G"))}), block({tr(var("L"))}));
    case 6: return if_(lnot(var("K")), block({tr(neg(var("K")))}));
    }
    return nullptr;
  };
  p.fn("g", {}, block({use(s3), ret(var("K"))}));
  p.fn("main", {"a", "b", "c"}, block({use(s1), use(s2), tr(call("g")), ret(var("K"))}));
  both(p, args3());
}
//@ entry c05_share args=0-6 time=200

// ---- global initialisers ----
extern "C" void c05_glob() {
  int op = nsym_arg(0), l = nsym_choose("l", NLEAF), r = nsym_choose("r", NLEAF);
  if (l == 5 || r == 5 || l == 6 || r == 6) return;      // no arguments there
  Prog p; base(p); p.global("H", bin(OPS[op], leaf(l, "a"), leaf(r, "b"))); p.global("I", bin("+", var("G"), lit(1)));
  p.fn("main", {"a", "b", "c"}, block({tr(var("H")), tr(var("I")), ret(var("H"))}));
  both(p, args3());
}
//@ entry c05_glob args=0-11 time=200
// ---- variables of every type: a rule of integer arithmetic may not be used for them ----
static Node *typed(int k) {
  switch (k) {
  case 0: return var("a"); case 1: return flt("0.5"); case 2: return bin("/", flt("0.0"), flt("0.0")); case 3: return neg(flt("0.0")); case 4: return bin("/", flt("1.0"), flt("0.0")); case 5: return str("s"); case 6: return str("");
  case 7: return none(); case 8: return arr({lit(1)}); case 9: return var("f"); case 10: return var("len"); case 11: return var("c");
  }
  return lit(3);
}
extern "C" void c05_types() {
  int op = nsym_arg(0), t = nsym_arg(1), sh = nsym_choose("shape", 6), c = nsym_choose("c", 2); static const int S[] = {0, 1, 2, 4, 8, 9, 10, 11, 12, 13}; int l = sh == 2 || sh == 3 ? 0 : S[nsym_choose("l", 10)];
  if (op == 0 && t == 9 && (l == 9 || l == 13)) return;   // shows an address
  Node *L = leaf(l, "b"), *X = var("x"), *e = nullptr;
  switch (sh) { case 0: e = bin(OPS[op], X, L); break; case 1: e = bin(OPS[op], L, X); break; case 2: e = bin(OPS[op], X, var("x")); break; case 3: e = bin(OPS[op], X, typed((t + 5) % 12 == 0 || (t + 5) % 12 == 11 ? 1 : (t + 5) % 12)); break; case 4: e = bin(OPS[op], bin("*", X, lit(1)), L); break; case 5: e = bin(OPS[op], bin("-", X, lit(0)), L); break; }
  Prog p; base(p); p.fn("in", {"x"}, c ? block({decl("z", X), set("G", e), tr(var("G")), ret(var("z"))}) : block({ret(e)}));
  p.fn("main", {"a", "b", "c"}, block({ret(call("in", {typed(t)}))}));
  int a = nsym_int("a"); uint32_t fb = nsym_int("c"); float f; memcpy(&f, &fb, 4); nsym_assume(((fb >> 23) & 255) != 255); if (op == 0) { nsym_assume((a >= -9) & (a <= 99)); f = 1.5f; }
  both(p, {Val::Int(a), Val::Int(5), Val::Flt(f)});
}
//@ entry c05_types args=0-11 args1=0-11 time=150
// ---- constant and variable expressions in every form and position ----
extern "C" void c05_mix() {
  int pos = nsym_arg(0), k = nsym_choose("k", NFORM), q = nsym_choose("q", nsym_tier() ? NFORM : 4), l = nsym_choose("l", 5);
  static const int Q[] = {0, 2, 4, 8};
  Node *e = l == 0 ? lit(0) : l == 1 ? lit(2) : l == 2 ? var("a") : l == 3 ? str("s") : flt("0.5");
  Prog p; p.konst("K", lit(2)); p.konst("Z", lit(0)); mix(p, pos, formv(k, formv(nsym_tier() ? q : Q[q], e)));
  both(p, {Val::Int(nsym_int("a")), Val::Int(nsym_int("b"))});
}
//@ entry c05_mix args=0-21 time=150
//@ bounds expressions of one and two operators over constants (0, 1, -1, 7, -5, INT_MIN, decimal, string, none, named) and variables in 15 statement contexts; literals of 1, 2 and 10 symbolic digits; two nested conditions from 18 constant and variable forms in 6 shapes; code after return in 10 block shapes; all integer inputs; a variable of each of 12 kinds of value (any integer, any float, nan, infinity, string, none, array, function, system function) with each constant and with itself under each operator
//@ outside larger expression trees; programs with more than two nested constant conditions
