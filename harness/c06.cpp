// C06: branches and loops
#include "shapes.hpp"
#include "forms.hpp"
using namespace ref;
static const char *M = "exactly the right statements run, in order";
static int uid;
static Node *mark() { return tr(lit(++uid)); }
static Node *cond(int d) {
  switch (d) {
  case 3: return var("a");
  case 2: return bin("<", var("b"), var("c"));
  case 1: return lnot(var("c"));
  }
  return bin("==", var("a"), var("b"));
}
// all statement nestings up to depth d; choices are symbolic
static Node *gen(int d) {
  std::vector<Node *> s; s.push_back(mark());
  int k = nsym_choose("k", d > 0 ? 8 : 2);
  std::string nv = "n" + std::to_string(d), iv = "i" + std::to_string(d);
  switch (k) {
  case 0: break;
  case 1: s.push_back(ret(d & 1 ? lit(100 + d) : var("a"))); break;
  case 2: s.push_back(if_(cond(d), gen(d - 1))); break;
  case 3: s.push_back(if_(cond(d), gen(d - 1), gen(0))); break;
  case 4: s.push_back(if_(cond(d), gen(0), gen(d - 1))); break;
  case 5: s.push_back(decl(nv, lit(0))); s.push_back(while_(bin("<", var(nv), var("n")), block({comp(nv, "+", lit(1)), gen(d - 1)}))); break;
  case 6: s.push_back(decl(iv, lit(50))); s.push_back(for_(iv, lit(0), var("n"), block({tr(var(iv)), gen(d - 1)}))); s.push_back(tr(var(iv))); break;
  case 7: s.push_back(if_(cond(d), block({}), gen(d - 1))); break;
  }
  if (d != 1 || nsym_choose("tail", 2)) s.push_back(mark());
  return block(s);
}
static std::vector<Val> args() {
  return {Val::Int(nsym_int("a")), Val::Int(nsym_int("b")), Val::Int(nsym_int("c")), Val::Int(nsym_range("n", -1, 2))};
}
static Node *top(int k, int d) { // first choice from the run's argument
  std::vector<Node *> s; s.push_back(mark());
  switch (k) {
  case 0: s.push_back(if_(cond(d), gen(d - 1))); break;
  case 1: s.push_back(if_(cond(d), gen(d - 1), gen(0))); break;
  case 2: s.push_back(if_(cond(d), gen(0), gen(d - 1))); break;
  case 3: s.push_back(decl("x", lit(0))); s.push_back(while_(bin("<", var("x"), var("n")), block({comp("x", "+", lit(1)), gen(d - 1)}))); break;
  case 4: s.push_back(decl("x", lit(0))); s.push_back(for_("x", lit(0), var("n"), block({tr(var("x")), gen(d - 1)}))); s.push_back(tr(var("x"))); break;
  case 5: s.push_back(if_(cond(d), gen(d > 1), gen(d > 1))); break;
  case 6: s.push_back(gen(1)); s.push_back(if_(var("a"), block({ret(lit(7))}))); s.push_back(gen(0)); break;
  }
  if (nsym_choose("end", 2)) s.push_back(mark());
  return block(s);
}
extern "C" void c06_nest() {
  uid = 0;
  Prog p; p.fn("main", {"a", "b", "c", "n"}, top(nsym_arg(0), 3));
  p.fn("after", {"q"}, block({tr(lit(999)), ret(lit(998))}));
  agree(p, "main", args(), M);
}
// ---- every program of up to N statements -----------------------------------------
extern "C" void c06_shapes() {
  Shapes S(nsym_tier() ? 5 : 4);
  Prog p; p.fn("f", {"a", "b", "c"}, S.body(nsym_arg(0), nsym_arg(1)));
  p.fn("after", {"q"}, block({tr(lit(999)), ret(lit(998))}));
  p.fn("main", {"a", "b", "c"}, block({tr(call("f", {var("a"), var("b"), var("c")})), ret(var("b"))}));
  agree(p, "main", {Val::Int(nsym_int("a")), Val::Int(nsym_int("b")), Val::Int(nsym_int("c"))}, M);
}
//@ entry c06_shapes args=0-5 args1=0-6 time=200

// what follows the last statement of a function belongs to another function
extern "C" void c06_last() {
  uid = 0; int d = nsym_arg(0); Node *b = nullptr;
  Node *x = nsym_choose("x", 2) ? block({mark(), ret(lit(41))}) : block({mark()}), *y = nsym_choose("y", 2) ? block({mark(), ret(lit(42))}) : block({mark()});
  switch (d) {
  case 0: b = if_(var("a"), x, y); break;
  case 1: b = if_(var("a"), x); break;
  case 2: b = if_(var("a"), if_(var("b"), x, y), if_(var("c"), y, x)); break;
  case 3: b = block({decl("k", lit(0)), while_(bin("<", var("k"), var("n")), block({comp("k", "+", lit(1)), if_(var("a"), x, y)}))}); break;
  case 4: b = block({decl("k"), for_("k", lit(0), var("n"), block({if_(var("a"), x, y)}))}); break;
  case 5: b = block({if_(var("a"), block({ret(lit(3))}), block({ret(lit(4))})), x}); break;
  case 6: b = block({decl("k", lit(0)), while_(bin("<", var("k"), var("n")), block({ret(var("n"))}))}); break;
  case 7: b = block({ret(var("a")), x}); break;
  }
  if (d == 2) b = if_(var("a"), block({if_(var("b"), x, y)}), block({if_(var("c"), y, x)}));
  Prog p; p.fn("f", {"a", "b", "c", "n"}, block({b}));
  p.fn("after", {"q"}, block({tr(lit(999)), ret(lit(998))}));
  p.fn("main", {"a", "b", "c", "n"}, block({decl("k", lit(9)), decl("r", call("f", {var("a"), var("b"), var("c"), var("n")})), tr(var("k")), tr(var("r")), ret(var("a"))}));
  agree(p, "main", args(), "a function ends at its last statement", nsym_choose("opt", 2) != 0);
}
//@ entry c06_last args=0-7
//@ entry c06_nest args=0-6 time=150
extern "C" void c06_flat() { // two constructs after one another
  uid = 0; Node *x = top(nsym_arg(0), 1), *y = nullptr;
  int k = nsym_choose("y", 3);
  y = k == 0 ? if_(var("c"), gen(0), gen(0)) : k == 1 ? block({decl("m", lit(0)), while_(bin("<", var("m"), var("n")), block({comp("m", "+", lit(1)), gen(0)}))}) : block({decl("q"), for_("q", lit(1), var("n"), gen(0)), tr(var("q"))});
  Prog p; p.fn("main", {"a", "b", "c", "n"}, block({x, y, mark(), ret(lit(3))}));
  agree(p, "main", args(), M, nsym_choose("opt", 2) != 0);
}
//@ entry c06_flat args=0-6 time=150

// for: all starts and limits with few rounds, including the ends of the range
extern "C" void c06_for() {
  int lo = nsym_int("lo"), hi = nsym_int("hi");
  nsym_assume((int64_t)hi - lo <= 3);
  int where = nsym_choose("w", 3);
  Prog p; if (where == 1) p.global("i");
  std::vector<Node *> b;
  if (where == 0) b.push_back(decl("i"));
  if (where == 2) b.push_back(set("b", lit(0)));
  const char *v = where == 2 ? "b" : "i";
  b.push_back(decl("k", lit(0)));
  b.push_back(for_(v, var("a"), var("c"), block({tr(var(v)), comp("k", "+", lit(1))})));
  b.push_back(tr(var(v))); b.push_back(ret(var("k")));
  p.fn("main", {"a", "b", "c"}, block(b));
  agree(p, "main", {Val::Int(lo), Val::Int(0), Val::Int(hi)}, "for runs with i = a, a+1, ... while i < b and leaves i at the limit");
}
//@ entry c06_for
// conditions, starts, limits and results in every form of expression
extern "C" void c06_forms() {
  int st = nsym_arg(0), k = nsym_choose("k", NFORM), j = st == 0 ? nsym_choose("j", NFORM) : 0, end = nsym_choose("end", 2);
  int a = nsym_int("a"), b = nsym_int("b");
  Prog p; form_funcs(p); p.konst("K", lit(2)); p.global("G", lit(1));
  Node *x = nullptr;
  switch (st) {
  case 0: nsym_assume((int64_t)b - a <= 2); x = for_("i", formv(k, var("a")), formv(j, var("b")), block({tr(var("i"))})); break;
  case 1: x = if_(formv(k, var("a")), block({tr(lit(1))}), block({tr(lit(2))})); break;
  case 2: x = while_(formv(k, var("a")), block({tr(lit(1)), set("a", lit(0))})); break;
  case 3: x = ret(formv(k, var("a"))); break;
  case 4: x = if_(lnot(formv(k, var("a"))), block({tr(lit(1))})); break;
  case 5: x = block({decl("r", arr({lit(4), lit(5), lit(6)})), for_("i", k == 0 ? lit(1) : k == 1 ? var("K") : k == 2 ? lit(3) : k == 3 ? neg(lit(1)) : k == 4 ? var("G") : lit(0), end ? len("r") : k & 1 ? var("K") : neg(lit(1)), block({tr(var("i"))}))}); break;
  case 6: x = while_(bin("<", formv(k, var("i")), lit(2)), block({tr(var("i")), comp("i", "+", lit(1))})); break;
  case 7: x = if_(bin("==", formv(k, var("a")), var("b")), block({ret(lit(1))}), block({if_(formv(k, var("b")), block({tr(lit(3))}))})); break;
  }
  p.fn("main", {"a", "b"}, block({decl("i", lit(0)), x, tr(var("i")), end ? ret(var("b")) : tr(lit(8))}));
  agree(p, "main", {Val::Int(a), Val::Int(b)}, "branches and loops work with every form of condition, start and limit");
}
//@ entry c06_forms args=0-7
// the limit is read again each round, and the variable may be changed in the body
extern "C" void c06_reread() {
  int k = nsym_arg(0), n = nsym_range("n", -2, 4), s = nsym_range("s", 1, 3);
  Prog p; p.global("L", lit(3));
  p.fn("lim", {}, block({tr(lit(77)), ret(var("L"))}));
  Node *body = nullptr, *limit = var("L");
  switch (k) {
  case 0: body = block({tr(var("i")), if_(bin("==", var("i"), lit(1)), block({set("L", var("n"))}))}); break;
  case 1: body = block({tr(var("i")), comp("i", "+", var("s"))}); limit = var("n"); break;
  case 2: body = block({tr(var("i"))}); limit = call("lim"); break;
  case 3: body = block({tr(var("i")), set("L", bin("-", var("L"), lit(1)))}); limit = call("lim"); break;
  case 4: body = block({tr(var("i")), if_(bin("==", var("i"), var("s")), block({ret(var("i"))}))}); limit = bin("+", var("n"), lit(1)); break;
  case 5: body = block({decl("j"), for_("j", var("i"), var("n"), block({tr(bin("+", bin("*", var("i"), lit(10)), var("j")))}))}); limit = var("n"); break;
  case 6: body = block({tr(var("i"))}); limit = flt("2.5"); break;
  case 7: body = block({tr(var("i"))}); limit = str("x"); break;
  case 8: body = block({tr(var("i"))}); limit = none(); break;
  case 9: body = block({decl("j", lit(0)), while_(bin("<", var("j"), var("i")), block({comp("j", "+", lit(1)), tr(var("j"))}))}); limit = var("n"); break;
  }
  p.fn("main", {"n", "s"}, block({decl("i"), for_("i", k == 6 ? flt("0.5") : lit(0), limit, body), tr(var("i")), ret(var("L"))}));
  agree(p, "main", {Val::Int(n), Val::Int(s)}, "the limit of a for loop is read each round");
}
//@ entry c06_reread args=0-9
// while: the condition is evaluated before each round, with all its effects
extern "C" void c06_while() {
  int k = nsym_arg(0), n = nsym_range("n", -2, 3);
  Prog p; p.global("G", lit(0));
  p.fn("next", {}, block({comp("G", "+", lit(1)), tr(var("G")), ret(bin("<=", var("G"), var("N")))}));
  p.global("N", lit(0));
  Node *body;
  switch (k) {
  case 0: body = block({set("N", var("n")), while_(call("next"), block({tr(lit(50))})), ret(var("G"))}); break;
  case 1: body = block({set("N", var("n")), while_(bin("and", call("next"), bin("<", var("G"), lit(2))), block({tr(lit(50))})), ret(var("G"))}); break;
  case 2: body = block({while_(bin(">", var("n"), lit(0)), block({comp("n", "-", lit(1)), tr(var("n")), while_(bin("==", var("n"), lit(1)), block({comp("n", "-", lit(1)), tr(lit(60))}))})), ret(var("n"))}); break;
  case 3: body = block({while_(var("n"), block({if_(bin(">", var("n"), lit(0)), block({comp("n", "-", lit(1))}), block({comp("n", "+", lit(1))})), tr(var("n"))})), ret(var("n"))}); break;
  case 4: body = block({while_(lit(1), block({comp("G", "+", lit(1)), if_(bin(">=", var("G"), var("n")), block({ret(var("G"))})), tr(var("G"))})), ret(lit(5))}); break;
  case 5: body = block({while_(lnot(bin("==", var("G"), lit(2))), block({comp("G", "+", lit(1)), while_(lit(0), block({tr(lit(9))})), tr(var("G"))})), ret(lit(5))}); break;
  default: body = block({while_(bin("<", var("G"), var("n")), block({comp("G", "+", lit(1)), if_(bin("==", var("G"), lit(1)), block({}), block({tr(lit(8))}))})), ret(var("G"))});
  }
  p.fn("main", {"n"}, body);
  agree(p, "main", {Val::Int(n)}, "while tests before each round");
}
//@ entry c06_while args=0-6
// else-if ladders: exactly one branch
extern "C" void c06_ladder() {
  int n = nsym_arg(0), dflt = nsym_choose("d", 2), x = nsym_int("x");
  Node *e = dflt ? block({tr(lit(99))}) : nullptr;
  for (int k = n; k > 0; k--) e = block({if_(bin("==", var("x"), lit(k)), block({tr(lit(k)), set("x", lit(k - 1))}), e)});
  Prog p; p.fn("main", {"x"}, block({e, tr(lit(0)), ret(var("x"))}));
  agree(p, "main", {Val::Int(x)}, "exactly one branch of a ladder runs");
}
//@ entry c06_ladder args=1,2,3,5,9
// return leaves at once from any depth and kind of block
extern "C" void c06_ret() {
  int d = nsym_arg(0), at = nsym_range("at", 0, 3);
  Node *b = block({tr(lit(1)), if_(bin("==", var("at"), lit(1)), block({ret(lit(11))})), tr(lit(2))});
  for (int k = 0; k < d; k++) {
    std::string v = "v" + std::to_string(k);
    switch (nsym_choose("w", 4)) {
    case 0: b = block({if_(lit(1), b), tr(lit(20 + k))}); break;
    case 1: b = block({if_(bin("<", var("at"), lit(0)), block({tr(lit(5))}), b), tr(lit(20 + k))}); break;
    case 2: b = block({decl(v, lit(0)), while_(bin("<", var(v), lit(2)), block({comp(v, "+", lit(1)), b})), tr(lit(20 + k))}); break;
    case 3: b = block({decl(v), for_(v, lit(0), lit(2), b), tr(lit(20 + k))}); break;
    }
  }
  Prog p; p.fn("f", {"at"}, block({b, if_(bin("==", var("at"), lit(2)), block({ret()})), tr(lit(3))}));
  p.fn("main", {"at"}, block({tr(call("f", {var("at")})), tr(lit(4)), ret(lit(5))}));
  agree(p, "main", {Val::Int(at)}, "return leaves the function at once");
}
//@ entry c06_ret args=1-4
// long bodies: branches over more than 64 KB of code
extern "C" void c06_far() {
  int k = nsym_arg(0), n = nsym_tier() ? 14000 : 7000;
  std::string big = " g = ["; for (int i = 0; i < n; i++) { if (i) big += ','; big += '1'; } big += "]\n";
  std::string s = "var g\nfunction main(a)\n var i = 0\n";
  if (k == 0) s += " if (a)\n" + big + " i += 1\n else\n" + " i += 2\n end\n i += 10\n return i\nend\n";
  if (k == 1) s += " if (a)\n i += 1\n else\n" + big + " i += 2\n end\n i += 10\n return i\nend\n";
  if (k == 2) s += " while (i < 2)\n if (a)\n return 7\n end\n" + big + " i += 1\n end\n return i\nend\n";
  s += "function last()\n return 5\nend\n";
  world w; MUST_COMPILE(w, s);
  vm_t vm(w.prog); vm.call_init();
  int a = nsym_int("a"); hval h; h_int(h, a);
  result r = run(vm, "main", 1, &h);
  nsym_check(r.is_int(k == 2 ? (a ? 7 : 2) : (a ? 11 : 12)), "branches over long bodies");
  result r2 = run(vm, "last");
  nsym_check(r2.is_int(5), "functions after a long one");
}
//@ entry c06_far args=0-2 steps=3000000000
// many rounds and deep nesting
extern "C" void c06_many() {
  int n = 300, d = nsym_arg(0), a = nsym_int("a");
  std::string s = "function main(a)\n var c = 0\n var i = 0\n while (i < " + std::to_string(n) + ")\n  i += 1\n";
  for (int k = 0; k < d; k++) s += " if (i > " + std::to_string(k) + ")\n";
  s += " c += a\n";
  for (int k = 0; k < d; k++) s += " else\n c += 1\n end\n";
  s += " end\n return c\nend\n";
  world w; MUST_COMPILE(w, s);
  vm_t vm(w.prog); vm.call_init();
  hval h; h_int(h, a); result r = run(vm, "main", 1, &h);
  uint32_t c = 0; for (int i = 1; i <= n; i++) { bool in = true; for (int k = 0; k < d && in; k++) if (i <= k) in = false; c += in ? (uint32_t)a : 1u; }
  nsym_check(r.is_int((int32_t)c), "deep nesting and many rounds");
}
//@ entry c06_many args=1,6,20
//@ bounds all nestings of if, if/else, while, for, return up to depth 3 (one deep branch per if/else); loop limits -2..4 rounds; all integers for conditions; for ranges of up to 3 rounds anywhere in the 32-bit range
//@ bounds bodies of more than 32 KB (thorough 64 KB) of code; 300 rounds; 20 nested ifs
//@ outside more rounds than stated with symbolic limits; deeper symbolic nesting
