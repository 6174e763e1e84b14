// C07: calls
#include "ref.hpp"
#include "mix.hpp"
using namespace ref;
static std::string N(const char *p, int k) { return p + std::to_string(k); }
// the callee: traces its parameters, fills its locals, returns a mix
static Node *mix(int np, int nl) {
  Node *e = lit(1000);
  for (int k = 0; k < np; k++) e = bin("+", bin("*", e, lit(3)), var(N("p", k)));
  for (int k = 0; k < nl; k++) e = bin("-", bin("*", e, lit(5)), var(N("l", k)));
  return e;
}
static Node *callee(int np, int nl) {
  std::vector<Node *> b;
  for (int k = 0; k < nl; k++) b.push_back(decl(N("l", k), bin("+", np ? var(N("p", k % np)) : lit(7), lit(100 * k))));
  for (int k = 0; k < np; k++) b.push_back(tr(var(N("p", k))));
  for (int k = 0; k < np; k++) b.push_back(comp(N("p", k), "+", lit(1)));
  b.push_back(ret(mix(np, nl)));
  return block(b);
}
static std::vector<std::string> names(const char *p, int n) { std::vector<std::string> v; for (int k = 0; k < n; k++) v.push_back(N(p, k)); return v; }
// argument k of the call: a pure or a traced expression over the caller's variables
static Node *argx(int k, int form) {
  Node *v = var(k % 3 == 0 ? "a" : k % 3 == 1 ? "b" : "x");
  switch (form) {
  case 0: return v;
  case 1: return call("t", {bin("+", v, lit(k))});
  case 2: return bin("-", call("t", {lit(50 + k)}), v);
  }
  return v;
}
static Node *reach(int how, const std::string &f, std::vector<Node *> a) { // direct, local, global, array element, result of a call
  switch (how) {
  case 0: return call(f, a);
  case 1: return calle(var("lf"), a);
  case 2: return calle(var("gf"), a);
  case 3: return calle(idx(var("af"), lit(1)), a);
  case 4: return calle(call("pick", {lit(0)}), a);
  case 5: return calle(call("pick", {call("t", {lit(9)})}), a);
  case 6: return calle(var("hf"), a);  // a parameter of the caller
  }
  return nullptr;
}
static Node *context(int c, Node *e) { // where the call stands
  switch (c) {
  case 0: return block({ret(e)});
  case 1: return block({ret(bin("-", bin("*", var("x"), lit(7)), bin("+", e, bin("*", var("y"), var("a")))))});
  case 2: return block({tr(e), tr(var("x")), tr(var("y")), ret(bin("+", var("x"), var("b")))});
  case 3: return block({decl("z", e), tr(var("x")), tr(var("y")), tr(var("z")), ret(var("a"))});
  case 4: return block({set("x", e), tr(var("x")), ret(var("y"))});
  case 5: return block({if_(e, block({tr(lit(1))}), block({tr(lit(2))})), ret(bin("+", var("x"), var("y")))});
  case 6: return block({decl("z", arr({var("x"), e, var("y")})), tr(idx(var("z"), lit(0))), tr(idx(var("z"), lit(1))), ret(idx(var("z"), lit(2)))});
  case 7: return block({ret(call("two", {bin("+", var("x"), lit(1)), e}))});
  case 8: return block({ret(call("two", {e, bin("+", var("y"), lit(1))}))});
  case 9: return block({do_(e), do_(e), ret(bin("+", var("x"), bin("+", var("y"), var("a"))))});
  }
  return nullptr;
}
static void shape(int np, int nl, int how, int ctx, int form, int cl, bool opt) {
  Prog p; p.global("gf"); p.global("gx", lit(77));
  std::vector<Node *> a; for (int k = 0; k < np; k++) a.push_back(argx(k, form));
  p.fn("two", {"u", "v"}, block({decl("w", bin("-", var("u"), var("v"))), ret(var("w"))}));
  Node *e = reach(how, "f", a);
  std::vector<Node *> b{decl("lf", var("f")), set("gf", var("f")), decl("af", arr({var("two"), var("f")})), decl("x", bin("+", var("a"), lit(11))), decl("y", bin("-", var("b"), lit(13)))};
  for (int k = 0; k < cl; k++) b.push_back(decl(N("c", k), lit(900 + k)));
  b.push_back(context(ctx, e));
  p.fn("pick", {"n"}, block({tr(var("n")), ret(var("f"))}));
  p.fn("work", {"a", "b", "hf"}, block(b));
  p.fn("main", {"a", "b"}, block({decl("q", lit(5)), decl("r", call("work", {var("a"), var("b"), var("f")})), tr(var("q")), tr(var("gx")), tr(var("a")), tr(var("b")), ret(var("r"))}));
  p.fn("f", names("p", np), callee(np, nl));
  int x = nsym_int("a"), y = nsym_int("b");
  agree(p, "main", {Val::Int(x), Val::Int(y)}, "a call binds its arguments in order, yields its value and leaves the caller as it was", opt);
}
extern "C" void c07_shape() {
  int np = nsym_arg(0), how = nsym_arg(1), nl = nsym_choose("nl", 3) * 2, ctx = nsym_choose("ctx", 10);
  if (how != 0 && how != 1 && how != 2 && how != 6 && ctx == 9) return; // only names can be called as statements
  int form = nsym_choose("form", 3); 
  shape(np, nl, how, ctx, form, nl == 2 ? 2 : 0, form != 2);
}
//@ entry c07_shape args=0-4 args1=0-6
extern "C" void c07_values() { // all argument values, every parameter position
  int n = nsym_arg(0), k = nsym_choose("k", n), via = nsym_choose("via", 2);
  Prog p; std::vector<Val> v; std::vector<Node *> a;
  for (int j = 0; j < n; j++) { v.push_back(Val::Int(nsym_int("v"))); a.push_back(var(N("m", j))); }
  p.fn("f", names("p", n), block({ret(var(N("p", k)))}));
  p.fn("main", names("m", n), block({decl("g", var("f")), ret(via ? calle(var("g"), a) : call("f", a))}));
  agree(p, "main", v, "parameter k holds argument k");
}
//@ entry c07_values args=1-6
// what a call yields: a value, none for a bare return, 0 without return; of any type
extern "C" void c07_result() {
  int k = nsym_arg(0), ctx = nsym_choose("c", 5), via = nsym_choose("via", 2), np = nsym_choose("np", 3), nl = nsym_choose("nl", 2);
  Prog p; Node *body = nullptr; p.global("ga");
  Node *A = np ? var(N("p", np - 1)) : var("ga");
  switch (k) {
  case 0: body = block({ret(A)}); break;
  case 1: body = block({ret()}); break;
  case 2: body = block({}); break;
  case 3: body = block({decl("l", A)}); break;
  case 4: body = block({ret(none())}); break;
  case 5: body = block({ret(str("txt"))}); break;
  case 6: body = block({ret(flt("2.5"))}); break;
  case 7: body = block({ret(arr({A, lit(2)}))}); break;
  case 8: body = block({ret(var("f"))}); break;
  case 9: body = block({if_(A, block({ret(lit(4))})), tr(lit(5))}); break;
  case 10: body = block({if_(A, block({ret()}), block({ret(lit(6))}))}); break;
  case 11: body = block({while_(A, block({ret(A)}))}); break;
  case 12: body = block({decl("l"), ret(var("l"))}); break;
  case 13: body = block({ret(lit(0))}); break;
  case 14: body = block({ret(call("o", {}))}); break;
  case 15: body = block({if_(A, block({}), block({ret(none())}))}); break;
  case 16: body = block({ret(str(""))}); break;
  }
  if (nl) body = block({decl("m0", lit(71)), decl("m1", bin("+", A, lit(1))), tr(bin("-", var("m1"), var("m0"))), body});
  p.fn("o", {}, block({ret(none())}));
  p.fn("f", names("p", np), body);
  std::vector<Node *> a; for (int j = 0; j < np; j++) a.push_back(j == np - 1 ? var("a") : lit(60 + j));
  Node *e = via ? calle(var("g"), a) : call("f", a);
  Node *b = ctx == 0 ? ret(e) : ctx == 1 ? ret(bin("==", e, none())) : ctx == 2 ? block({tr(e), ret(var("h"))}) : ctx == 3 ? block({decl("i", arr({lit(1), e, lit(3)})), tr(idx(var("i"), lit(1))), ret(idx(var("i"), lit(2)))}) : block({do_(e), do_(e), ret(var("h"))});
  p.fn("main", {"a"}, block({set("ga", var("a")), decl("g", var("f")), decl("h", lit(31)), b}));
  int a0 = nsym_int("a");
  agree(p, "main", {Val::Int(a0)}, "a call yields what its function returned");
}
//@ entry c07_result args=0-16
// wrong number of arguments, or something that is no function, through a variable
extern "C" void c07_wrong() {
  int np = nsym_arg(0), na = nsym_choose("na", 5), what = nsym_choose("what", 9), where = nsym_choose("where", 4);
  Prog p; p.global("g");
  p.fn("f", names("p", np), block({tr(lit(111)), ret(lit(5))}));
  Node *v = what == 0 ? var("f") : what == 1 ? none() : what == 2 ? lit(3) : what == 3 ? flt("1.5") : what == 4 ? str("f") : what == 5 ? arr({var("f")}) : what == 6 ? var("len") : what == 7 ? var("t") : var("a");
  std::vector<Node *> a; for (int k = 0; k < na; k++) a.push_back(call("t", {bin("+", var("a"), lit(k))}));
  Node *e = where == 0 ? calle(var("l"), a) : where == 1 ? calle(var("g"), a) : where == 2 ? calle(idx(var("r"), lit(0)), a) : calle(var("h"), a);
  p.fn("go", {"a", "h"}, block({decl("l", v), set("g", var("l")), decl("r", arr({var("l")})), tr(lit(1)), tr(e), tr(lit(2)), ret(lit(3))}));
  p.fn("main", {"a"}, block({ret(call("go", {var("a"), v}))}));
  int x = nsym_int("a");
  agree(p, "main", {Val::Int(x)}, "calling with a wrong number of arguments, or calling no function, is an error and runs nothing of it");
}
//@ entry c07_wrong args=0-4
// recursion
extern "C" void c07_rec() {
  int k = nsym_arg(0), n = nsym_range("n", -1, 6), a = nsym_int("a");
  Prog p; Node *N_ = var("n");
  auto dec = [&](int by) { return bin("-", var("n"), lit(by)); };
  switch (k) {
  case 0: p.fn("f", {"n", "a"}, block({if_(bin("<=", N_, lit(0)), block({ret(var("a"))})), decl("l", bin("*", N_, lit(10))), decl("r", call("f", {dec(1), bin("+", var("a"), N_)})), tr(var("n")), tr(var("l")), ret(bin("+", var("r"), var("l")))})); break;
  case 1: p.fn("f", {"n", "a"}, block({if_(bin("<", N_, lit(2)), block({ret(var("n"))})), ret(bin("+", call("f", {dec(1), var("a")}), call("f", {dec(2), var("a")})))})); break;
  case 2: p.fn("f", {"n", "a"}, block({if_(bin("<=", N_, lit(0)), block({ret(lit(1))})), ret(bin("-", var("a"), call("g", {var("a"), dec(1)})))}));
          p.fn("g", {"a", "n"}, block({decl("z", bin("+", var("n"), var("a"))), ret(bin("+", call("f", {var("n"), lit(3)}), var("z")))})); break;
  case 3: p.fn("f", {"n", "a"}, block({if_(bin("<=", N_, lit(0)), block({ret(lit(0))})), ret(call("f", {bin("-", call("f", {dec(1), var("a")}), lit(1)), call("t", {bin("+", var("a"), var("n"))})}))})); break;
  case 4: p.fn("f", {"n", "a"}, block({decl("i", lit(0)), decl("s", lit(0)), while_(bin("<", var("i"), N_), block({comp("i", "+", lit(1)), if_(bin("<", N_, lit(4)), block({comp("s", "+", call("f", {dec(1), var("i")}))})), tr(bin("+", bin("*", var("n"), lit(10)), var("i")))})), ret(bin("+", var("s"), var("a")))})); break;
  case 5: p.fn("f", {"n", "a"}, block({decl("me", var("f")), if_(bin("<=", N_, lit(0)), block({ret(var("a"))})), decl("x", arr({N_, calle(var("me"), {dec(1), bin("+", var("a"), lit(1))})})), ret(bin("+", idx(var("x"), lit(0)), idx(var("x"), lit(1))))})); break;
  case 6: p.fn("f", {"n", "a"}, block({if_(bin("<=", N_, lit(0)), block({ret()})), decl("l", var("n")), do_(call("f", {dec(1), var("a")})), tr(var("l")), ret(var("l"))})); break;
  }
  p.fn("main", {"n", "a"}, block({decl("k", lit(8)), decl("r", call("f", {var("n"), var("a")})), tr(var("k")), ret(var("r"))}));
  agree(p, "main", {Val::Int(n), Val::Int(a)}, "recursion keeps every activation apart");
}
//@ entry c07_rec args=0-6
// nested calls as arguments of one another
extern "C" void c07_nest() {
  int k = nsym_arg(0), a = nsym_int("a"), b = nsym_int("b");
  Prog p;
  p.fn("f", {"x", "y"}, block({decl("l", bin("-", var("x"), var("y"))), tr(var("l")), ret(bin("*", var("l"), lit(3)))}));
  p.fn("g", {"x"}, block({tr(var("x")), ret(bin("+", var("x"), lit(1)))}));
  Node *A = var("a"), *B = var("b"), *e = nullptr;
  switch (k) {
  case 0: e = call("f", {call("g", {A}), call("g", {B})}); break;
  case 1: e = call("f", {call("f", {A, B}), call("f", {B, A})}); break;
  case 2: e = call("g", {call("g", {call("g", {A})})}); break;
  case 3: e = bin("-", call("f", {A, call("g", {B})}), call("f", {call("g", {A}), B})); break;
  case 4: e = call("f", {bin("+", A, call("f", {A, B})), bin("-", call("g", {B}), A)}); break;
  case 5: e = bin("-", bin("+", A, call("g", {B})), bin("*", call("g", {A}), bin("-", B, call("f", {B, A})))); break;
  case 6: e = call("f", {idx(arr({A, call("g", {A}), B}), call("g", {lit(0)})), call("t", {call("g", {B})})}); break;
  case 7: e = bin("==", call("f", {A, A}), lnot(call("g", {B}))); break;
  case 8: e = neg(call("f", {neg(A), lnot(call("g", {B}))})); break;
  case 9: e = calle(idx(arr({var("g"), var("f")}), lit(1)), {call("g", {A}), call("g", {B})}); break;
  }
  p.fn("main", {"a", "b"}, block({ret(e)}));
  agree(p, "main", {Val::Int(a), Val::Int(b)}, "nested calls", nsym_choose("opt", 2) != 0);
}
//@ entry c07_nest args=0-9
// many: parameters, locals, functions, frames, repeated calls
extern "C" void c07_many() {
  int k = nsym_arg(0), a = nsym_int("a");
  std::string s;
  uint32_t want = 0;
  if (k == 0) { // 40 parameters
    s = "function f("; for (int i = 0; i < 40; i++) s += (i ? ",p" : "p") + std::to_string(i);
    s += ")\n return p39 * 3 + p0 - p20\nend\nfunction main(a)\n var f2 = f\n return f2("; for (int i = 0; i < 40; i++) { if (i) s += ","; s += "a + " + std::to_string(i * i); }
    s += ") + 1\nend\n"; want = ((uint32_t)a + 39 * 39) * 3 + (uint32_t)a - ((uint32_t)a + 400) + 1;
  }
  if (k == 1) { // 300 locals in the callee and in the caller
    s = "function f(q)\n"; for (int i = 0; i < 300; i++) s += " var v" + std::to_string(i) + " = q + " + std::to_string(i) + "\n";
    s += " return v299 - v7\nend\nfunction main(a)\n"; for (int i = 0; i < 300; i++) s += " var v" + std::to_string(i) + " = a + " + std::to_string(i) + "\n";
    s += " return f(v3) + v0 + v255 + v256 + v299\nend\n"; want = 292 + 4 * (uint32_t)a + 255 + 256 + 299;
  }
  if (k == 2) { // 300 functions
    for (int i = 0; i < 300; i++) s += "function f" + std::to_string(i) + "(x)\n return x + " + std::to_string(i) + "\nend\n";
    s += "function main(a)\n var g = f257\n return f0(a) + f255(a) * 2 + f256(a) * 3 + f299(a) * 5 + g(a)\nend\n"; want = (uint32_t)a + 2 * ((uint32_t)a + 255) + 3 * ((uint32_t)a + 256) + 5 * ((uint32_t)a + 299) + (uint32_t)a + 257;
  }
  if (k == 3) { // 400 frames
    s = "function f(n, a)\n var l = n\n if (n == 0)\n  return a\n end\n return f(n - 1, a + 1) + l - n + 1\nend\nfunction main(a)\n var z = 5\n return f(400, a) + z\nend\n"; want = (uint32_t)a + 400 + 400 + 5;
  }
  if (k == 4) { // 1000 calls as statements and in expressions, then pending values
    s = "function f(n)\n var l = n\n return l + 1\nend\nfunction main(a)\n var i = 0\n var s = 0\n while (i < 1000)\n  f(i)\n  s = s + f(i) - i\n  i += 1\n end\n return a + s\nend\n"; want = (uint32_t)a + 1000;
  }
  if (k == 5) { // deeply nested expression with pending values
    s = "function f(x, y)\n return x - y\nend\nfunction main(a)\n return "; for (int i = 0; i < 60; i++) s += "f(" + std::to_string(i) + ", "; s += "a"; for (int i = 0; i < 60; i++) s += ")"; s += "\nend\n";
    want = (uint32_t)a; for (int i = 59; i >= 0; i--) want = (uint32_t)i - want;
  }
  world w; MUST_COMPILE(w, s);
  vm_t vm(w.prog); vm.call_init();
  hval h; h_int(h, a); result r = run(vm, "main", 1, &h);
  nsym_check(r.is_int((int32_t)want), "calls with many parameters, locals, functions and frames");
}
//@ entry c07_many args=0-5 steps=1000000000
// frames of any size: callee with n locals or parameters, pending values of the caller below it
extern "C" void c07_frame() {
  static const int N[] = {0, 1, 2, 15, 16, 63, 64, 127, 128, 129, 254, 255, 256, 257, 300, 511, 513};
  int n = N[nsym_arg(0)], kind = nsym_choose("kind", 3), use = nsym_choose("use", 6), a = nsym_int("a"), b = nsym_int("b");
  auto S = [](int i) { return std::to_string(i); };
  int np = kind == 0 ? 0 : kind == 1 ? n : n / 2, nl = kind == 0 ? n : kind == 1 ? 0 : n - n / 2;
  std::string s = "function f(q"; for (int i = 0; i < np; i++) s += ", p" + S(i);
  s += ")\n"; for (int i = 0; i < nl; i++) s += " var v" + S(i) + " = q + " + S(i) + "\n";
  s += " return q * 3"; uint32_t k = 0;
  if (np) { s += " - p" + S(np - 1) + " + p0"; k += -(uint32_t)(np - 1) * 7u; }
  if (nl) { s += " + v" + S(nl - 1) + " - v0"; k += nl - 1; }
  s += "\nend\nfunction sub(x, y)\n return x - y\nend\nfunction main(a, b)\n var x = a\n var y = b\n";
  std::string t; for (int i = 0; i < np; i++) t += ", " + S(i * 7);
  std::string cb = "f(b" + t + ")", ca = "f(a" + t + ")";
  uint32_t A = a, B = b, fb = 3 * B + k, fa = 3 * A + k, want = 0;
  switch (use) {
  case 0: s += " return a - 5 * " + cb; want = A - 5 * fb; break;
  case 1: s += " return a - (b - " + cb + ")"; want = A - (B - fb); break;
  case 2: s += " return sub(a, sub(" + cb + ", " + ca + "))"; want = A - (fb - fa); break;
  case 3: s += " var z = [a, " + cb + ", b]\n return z[0] * 5 - z[1] * 3 - z[2]"; want = A * 5 - fb * 3 - B; break;
  case 4: s += " var i = 0\n while (i < 3)\n  x = x - " + cb + "\n  i += 1\n end\n return x * 2 - y"; want = (A - 3 * fb) * 2 - B; break;
  case 5: s += " " + cb + "\n return x - y - f(" + ca + t + ")"; want = A - B - (3 * fa + k); break;
  }
  s += "\nend\n";
  world w; MUST_COMPILE(w, s);
  vm_t vm(w.prog); vm.call_init();
  hval h[2]; h_int(h[0], a); h_int(h[1], b); result r = run(vm, "main", 2, h);
  nsym_check(r.is_int((int32_t)want), "a call leaves the caller's pending values and variables alone, however large its frame");
}
//@ entry c07_frame args=0-16 time=100 steps=1000000000
// arguments, callees and results in every form
extern "C" void c07_mix() {
  int sh = nsym_arg(0), k = nsym_choose("k", NFORM), j = nsym_choose("j", NFORM), pos = nsym_choose("pos", 3);
  static const int P[] = {0, 16, 20}; Node *e = nullptr, *x = formv(k, var("a")), *y = formv(j, var("b"));
  switch (sh) {
  case 0: e = call("two", {x, y}); break;
  case 1: e = calle(idx(arr({var("two"), var("id")}), lit(0)), {x, y}); break;
  case 2: e = calle(call("id", {var("two")}), {x, y}); break;
  case 3: e = call("two", {call("two", {x, var("b")}), y}); break;
  case 4: e = call("three", {x, y, x}); break;
  case 5: e = calle(call("id", {var("three")}), {y, call("id", {x}), var("a")}); break;
  }
  Prog p; p.fn("three", {"x", "y", "z"}, block({tr(var("z")), tr(var("x")), decl("q", bin("-", var("x"), var("y"))), ret(var("q"))})); mix(p, P[pos], e);
  agree(p, "main", {Val::Int(nsym_int("a")), Val::Int(nsym_int("b"))}, "calls work with every form of argument");
}
//@ entry c07_mix args=0-5 time=150
// names of any length, sharing any prefix, before and after their use
extern "C" void c07_names() {
  int len = nsym_arg(0), order = nsym_choose("order", 3), via = nsym_choose("via", 3), cut = nsym_choose("cut", 3);
  std::string base; for (int i = 0; i < len; i++) base += (char)(i % 7 == 3 ? '_' : 'a' + i % 26);
  std::string f[3] = {base + "a", base + "b", cut == 0 ? base : cut == 1 ? base + "A" : base + "ab"};
  if (f[2] == "" || f[2] == "t" || f[2] == "if" || f[2] == "a") return;
  Prog p; Node *r = lit(0);
  for (int k = 0; k < 3; k++) { Node *c = via == 0 ? call(f[k], {var("q"), lit(k)}) : via == 1 ? calle(idx(arr({var(f[k])}), lit(0)), {var("q"), lit(k)}) : call("t", {call(f[k], {lit(k), var("q")})}); r = bin("-", bin("*", r, lit(3)), c); }
  auto def = [&](int k) { p.fn(f[k], {"u", "v"}, block({ret(bin("-", bin("*", var("u"), lit(k + 2)), bin("*", var("v"), lit(5))))})); };
  if (order == 0) for (int k = 0; k < 3; k++) def(k);
  if (order == 1) def(1);
  p.fn("main", {"q"}, block({ret(r)}));
  if (order == 1) { def(2); def(0); }
  if (order == 2) for (int k = 2; k >= 0; k--) def(k);
  agree(p, "main", {Val::Int(nsym_int("q"))}, "a call reaches the function of that very name");
}
//@ entry c07_names args=0-40 time=60
// every type of result and argument from any depth of frames and pending values
extern "C" void c07_depth() {
  static const int D[] = {1, 3, 7, 12, 20, 33, 65, 130};
  int d = D[nsym_arg(0)], k = nsym_choose("k", 8), pend = nsym_choose("pend", 3), a = nsym_int("a");
  Prog p; p.fuel = 4000; p.frames = 150; Node *v = nullptr;
  switch (k) {
  case 0: v = var("a"); break;
  case 1: v = arr({var("a"), lit(2), arr({lit(3)})}); break;
  case 2: v = str("text"); break;
  case 3: v = flt("2.5"); break;
  case 4: v = none(); break;
  case 5: v = var("deep"); break;
  case 6: v = idx(arr({lit(1), var("a")}), lit(1)); break;
  case 7: v = arr({}); v = call("mk", {var("a")}); break;
  }
  Node *rec = call("deep", {bin("-", var("n"), lit(1)), var("a")});
  std::vector<Node *> b{if_(bin("<=", var("n"), lit(0)), block({ret(v)}))};
  if (pend == 0) b.push_back(ret(rec));
  if (pend == 1) { b.push_back(decl("l", bin("+", var("n"), var("a")))); b.push_back(decl("r", rec)); b.push_back(if_(bin("<", bin("-", var("l"), var("n")), var("a")), block({tr(lit(1))}))); b.push_back(ret(var("r"))); }
  if (pend == 2) b.push_back(ret(idx(arr({var("n"), rec}), lit(1))));
  p.fn("mk", {"a"}, block({decl("z", arr({lit(8), lit(9)})), seta("z", lit(0), var("a")), ret(var("z"))}));
  p.fn("deep", {"n", "a"}, block(b));
  bool ar = k == 1 || k == 7;
  std::vector<Node *> m{decl("r", call("deep", {lit(d), var("a")}))};
  if (ar) { m.push_back(tr(call("len", {var("r")}))); m.push_back(tr(idx(var("r"), lit(0)))); m.push_back(tr(idx(var("r"), lit(1)))); }
  if (k == 5) m.push_back(ret(calle(var("r"), {lit(0), lit(4)}))); else m.push_back(ret(ar ? lit(3) : var("r")));
  p.fn("main", {"a"}, block(m));
  agree(p, "main", {Val::Int(a)}, "a result arrives as it was returned from any depth");
}
//@ entry c07_depth args=0-7 time=120 steps=400000000
//@ bounds 0-4 parameters (up to 513 concrete), 0-4 locals (up to 513 concrete, with values pending below), seven ways to reach the function, ten places for the call, traced or plain arguments, all 32-bit argument values
//@ bounds recursion with n up to 6 and all values (400 frames concrete), 1000 repeated calls, 300 functions
//@ bounds results of 8 kinds from 1-130 frames deep with and without pending values; three functions whose names share a prefix of 0-40 characters, defined before and after use; 15 syntactic forms for each of two arguments
//@ outside unbounded recursion (the frame stack grows with the host's memory)
