// C03: truth
#include "ref.hpp"
#include "mix.hpp"
using namespace ref;
enum { T_NONE, T_INT, T_FLT, T_STR, T_ARR, T_FUN, T_SYS, T_FLIT, T_ILIT, T_SLIT, NT };
struct opnd { std::string txt; hval h; int truth; };
// a value of type t with symbolic contents, passed as argument or written out
static void mkop(opnd &o, int t, const char *arg) {
  switch (t) {
  case T_NONE: o.txt = "none"; o.truth = 0; break;
  case T_INT: { int v = nsym_int(arg); h_int(o.h, v); o.txt = arg; o.truth = v != 0; } break;
  case T_FLT: { uint32_t b = (uint32_t)nsym_int(arg); h_float_bits(o.h, b); o.txt = arg; o.truth = (b & 0x7fffffffu) != 0; } break;
  case T_STR: { int n = nsym_choose("n", 3); char s[3] = {0}; for (int i = 0; i < n; i++) { s[i] = (char)nsym_u8(arg); nsym_assume(s[i] != 0); } h_str(o.h, s, n); o.txt = arg; o.truth = n > 0; } break;
  case T_ARR: o.txt = "[0]"; o.truth = 1; break;
  case T_FUN: o.txt = "fa"; o.truth = 1; break;
  case T_SYS: o.txt = "abs"; o.truth = 1; break;
  case T_FLIT: { int k = nsym_choose("fl", 4); static const char *L[] = {"0.0", "0.25", "1.0", "0.000001"}; o.txt = L[k]; o.truth = k != 0; } break;
  case T_ILIT: { unsigned char c = nsym_u8(arg), d = nsym_u8(arg); nsym_assume(c >= '0' && c <= '9' && d >= '0' && d <= '9'); o.txt = std::string(1, (char)c) + (char)d; o.truth = (c != '0') | (d != '0'); } break;
  case T_SLIT: { int k = nsym_choose("sl", 3); static const char *L[] = {"\"\"", "\"0\"", "\" \""}; o.txt = L[k]; o.truth = k != 0; } break;
  }
}
static const char *GL = "var g\nfunction fa()\n return 0\nend\nfunction id(x)\n return x\nend\n";
static std::string via(int src, const std::string &e, std::string &pre, const char *tag) {
  std::string T = tag;
  switch (src) {
  case 1: pre += " var l" + T + " = " + e + "\n"; return "l" + T;
  case 2: pre += " var r" + T + " = [" + e + "]\n"; return "r" + T + "[0]";
  case 3: return "id(" + e + ")";
  }
  return e;
}
// consumers: 0 if/else, 1 if without else, 2 while, 3 not, 4 not not, 5 and 1, 6 1 and, 7 or 0, 8 0 or, 9 if (not x), 10 not inside and
static std::string consumer(int c, const std::string &x) {
  switch (c) {
  case 0: return " if (" + x + ")\n  return 1\n else\n  return 0\n end\n return 7\n";
  case 1: return " if (" + x + ")\n  return 1\n end\n return 0\n";
  case 2: return " while (" + x + ")\n  return 1\n end\n return 0\n";
  case 3: return " return not " + x + "\n";
  case 4: return " return not (not " + x + ")\n";
  case 5: return " return " + x + " and 1\n";
  case 6: return " return 1 and " + x + "\n";
  case 7: return " return " + x + " or 0\n";
  case 8: return " return 0 or " + x + "\n";
  case 9: return " if (not " + x + ")\n  return 0\n end\n return 1\n";
  case 10: return " return " + x + " and " + x + "\n";
  case 11: return " return " + x + " or " + x + "\n";
  }
  return "";
}
extern "C" void c03_one() {
  int c = nsym_arg(0), t = nsym_choose("t", NT), src = nsym_choose("src", 4), opt = nsym_choose("opt", 2);
  opnd o; mkop(o, t, "a");
  std::string pre, x = via(src, o.txt, pre, "0");
  std::string s = GL; s += "function main(a)\n" + pre + consumer(c, x) + "end\n";
  nsym_note(s.c_str());
  world w; MUST_COMPILE(w, s, opt != 0);
  vm_t vm(w.prog); vm.call_init();
  result r = run(vm, "main", 1, &o.h);
  nsym_check(r.is_int(c == 3 ? !o.truth : o.truth), "every consumer agrees on what is true and yields 1 or 0");
}
//@ entry c03_one args=0-11
// and / or over all pairs of types
extern "C" void c03_two() {
  int op = nsym_arg(0), ta = nsym_arg(1), tb = nsym_choose("tb", NT), src = nsym_choose("src", 2);
  opnd a, b; mkop(a, ta, "a"); mkop(b, tb, "b");
  std::string pre, x = via(src, a.txt, pre, "0"), y = via(src, b.txt, pre, "1");
  std::string s = GL; s += "function main(a,b)\n" + pre + " return " + x + (op ? " or " : " and ") + y + "\nend\n";
  nsym_note(s.c_str());
  world w; MUST_COMPILE(w, s);
  vm_t vm(w.prog); vm.call_init();
  hval h[2]; h[0] = a.h; h[1] = b.h; h[0].p = (value_t *)h[0].mem; h[1].p = (value_t *)h[1].mem;
  result r = run(vm, "main", 2, h);
  nsym_check(r.is_int(op ? a.truth | b.truth : a.truth & b.truth), "'and'/'or' yield 1 or 0 from the operands' truth");
}
//@ entry c03_two args=0-1 args1=0-9
// both operands are evaluated, left before right, whatever the first one is
extern "C" void c03_order() {
  int shape = nsym_arg(0), o1 = nsym_choose("o1", 2), o2 = nsym_choose("o2", 2), o3 = nsym_choose("o3", 2);
  const char *A = o1 ? "or" : "and", *B = o2 ? "or" : "and", *C = o3 ? "or" : "and";
  Node *x = call("t", {var("a")}), *y = call("t", {var("b")}), *z = call("t", {var("c")}), *u = call("t", {lit(77)});
  Node *e = nullptr;
  switch (shape) {
  case 0: e = bin(A, x, y); break;
  case 1: e = bin(B, bin(A, x, y), z); break;
  case 2: e = bin(A, x, bin(B, y, z)); break;
  case 3: e = bin(B, bin(A, x, lnot(y)), z); break;
  case 4: e = bin(C, bin(A, x, y), bin(B, z, u)); break;
  case 5: e = bin(B, bin(A, lit(0), y), z); break;
  case 6: e = bin(B, bin(A, lit(1), y), z); break;
  case 7: e = bin(A, y, lit(0)); break;
  case 8: e = bin(A, y, lit(1)); break;
  }
  int where = nsym_choose("where", 4), opt = nsym_choose("opt", 2);
  Prog p;
  Node *b = where == 0 ? block({ret(e)}) : where == 1 ? block({if_(e, block({tr(lit(5))}), block({tr(lit(6))})), ret(lit(1))})
          : where == 2 ? block({while_(e, block({ret(lit(8))})), ret(lit(9))}) : block({decl("v", e), tr(var("v")), ret(lnot(var("v")))});
  p.fn("main", {"a", "b", "c"}, b);
  agree(p, "main", {Val::Int(nsym_int("a")), Val::Int(nsym_int("b")), Val::Int(nsym_int("c"))}, "both operands of and/or are evaluated once, left before right", opt != 0);
}
//@ entry c03_order args=0-8
// a while loop re-evaluates truth each round, for a value that changes type
extern "C" void c03_loop() {
  int k = nsym_choose("k", 6);
  static const char *F[] = {"none", "0", "0.0", "\"\"", "1 - 1", "1.5 - 1.5"};
  std::string s = std::string("function main(a)\n var n = 0\n var x = a\n while (x)\n  n += 1\n  if (n == 3)\n   x = ") + F[k] + "\n  else\n   x = [n]\n  end\n end\n return n\nend\n";
  world w; MUST_COMPILE(w, s);
  vm_t vm(w.prog); vm.call_init();
  int a = nsym_int("a"); hval h; h_int(h, a);
  result r = run(vm, "main", 1, &h);
  nsym_check(r.is_int(a ? 3 : 0), "a loop ends when its condition first becomes false");
}
//@ entry c03_loop
// truth of every form of value in every position
extern "C" void c03_mix() {
  int use = nsym_arg(0), t = nsym_choose("t", 9), k = nsym_choose("k", NFORM), pos = use < 3 ? nsym_choose("pos", NPOS) : 0;
  Node *v = nullptr;
  switch (t) { case 0: v = var("a"); break; case 1: v = none(); break; case 2: v = str(""); break; case 3: v = str("0"); break; case 4: v = arr({lit(0)}); break; case 5: v = var("id"); break; case 6: v = flt("0.0"); break; case 7: v = flt("0.25"); break; case 8: v = var("len"); break; }
  if (use < 3 && t > 3) return;
  v = formv(k, v); Node *e = nullptr;
  switch (use) { case 0: e = lnot(v); break; case 1: e = bin("and", v, var("b")); break; case 2: e = bin("or", var("b"), v); break; case 3: e = lnot(lnot(v)); break; case 4: e = bin("and", lit(1), v); break; case 5: e = bin("or", v, lit(0)); break; case 6: e = bin("and", v, v); break; }
  Prog p;
  if (use == 7) mix(p, 10, v); else if (use == 8) mix(p, 11, v); else mix(p, pos, e);
  agree(p, "main", {Val::Int(nsym_int("a")), Val::Int(nsym_int("b"))}, "truth is the same everywhere");
}
//@ entry c03_mix args=0-8 time=150
//@ bounds values of all types (all ints, all float bit patterns including -0 and NaN, strings up to 2 chars, literals of 2 symbolic digits) direct, in locals, array elements and call results, for 12 consumer forms with the optimiser on and off
//@ bounds and/or trees of up to four operands with traced operands
//@ outside user-defined value types
