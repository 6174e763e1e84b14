// C02: operators and operand types
#include "ref.hpp"
#include "mix.hpp"
using namespace ref;
static const char *OPS[] = {"+", "-", "*", "/", "%", "<", ">", "<=", ">=", "=="};
enum { T_NONE, T_INT, T_FLT, T_STR, T_ARR, T_FUN, T_SYS, NT };
// how the operand gets its value (setup line, expression); ints, floats and
// strings come from arguments with symbolic contents
struct opnd { int t; std::string pre, txt; Val v; hval h; };
static void mkop(opnd &o, int t, int src, const char *arg, const char *tag) {
  o.t = t; std::string A = arg, T = tag, e;
  switch (t) {
  case T_NONE: e = "none"; break;
  case T_INT: o.v = Val::Int(nsym_int(arg)); h_int(o.h, o.v.i); e = A; break;
  case T_FLT: { uint32_t b = (uint32_t)nsym_int(arg); o.v = Val::Flt(fval(b)); h_float_bits(o.h, b); e = A; } break;
  case T_STR: { unsigned char c = nsym_u8(arg); nsym_assume(c != 0); char s[3] = {(char)c, 'x', 0}; o.v = Val::Str(std::string(s, 2)); h_str(o.h, s, 2); e = A; } break;
  case T_ARR: e = "[1,2]"; break;
  case T_FUN: e = "fa"; break;
  case T_SYS: e = "abs"; break;
  }
  switch (src) {
  case 0: o.txt = e; break;
  case 1: o.pre = " var l" + T + " = " + e + "\n"; o.txt = "l" + T; break;
  case 2: o.pre = " g" + T + " = " + e + "\n"; o.txt = "g" + T; break;
  case 3: o.pre = " var r" + T + " = [0," + e + "]\n"; o.txt = "r" + T + "[1]"; break;
  case 4: o.txt = "id(" + e + ")"; break;
  }
}
static const char *GL = "var g0\nvar g1\nfunction fa(x)\n return 1\nend\nfunction fb(x)\n return 2\nend\nfunction id(x)\n return x\nend\n";

static void judge(const result &r, int op, const opnd &a, const opnd &b, bool samefn) {
  using E = thread_error_t;
  bool na = a.t == T_INT || a.t == T_FLT, nb = b.t == T_INT || b.t == T_FLT;
  bool ii = a.t == T_INT && b.t == T_INT;
  if (op == 4) {
    if (!ii) { nsym_check(r.is_err(E::e_bad_type_operation), "% takes integers only"); return; }
    if (b.v.i == 0) { nsym_check(r.is_err(E::e_bad_divide_by_zero), "% by zero"); return; }
    nsym_check(r.is_int(b.v.i == -1 ? 0 : a.v.i % b.v.i), "int % int is an int"); return;
  }
  if (op == 9) {
    if (a.t == T_NONE || b.t == T_NONE) { nsym_check(r.is_int(a.t == b.t), "none equals only none"); return; }
    if (ii) { nsym_check(r.is_int(a.v.i == b.v.i), "int == int"); return; }
    if (na && nb) { nsym_check(r.is_int(a.v.asf() == b.v.asf()), "mixed numbers compare as single precision"); return; }
    if (a.t == T_STR && b.t == T_STR) { nsym_check(r.is_int(a.v.s[0] == b.v.s[0]), "string == string compares contents"); return; }
    if (a.t == T_FUN && b.t == T_FUN) { nsym_check(r.is_int(samefn), "function == function is identity"); return; }
    nsym_check(r.is_err(E::e_bad_type_operation), "== of unrelated types is the bad-type error"); return;
  }
  if (ii) {
    if (op == 3 && b.v.i == 0) { nsym_check(r.is_err(E::e_bad_divide_by_zero), "/ by zero"); return; }
    int32_t x = a.v.i, y = b.v.i, v = 0;
    switch (op) {
    case 0: v = (int32_t)((uint32_t)x + (uint32_t)y); break;
    case 1: v = (int32_t)((uint32_t)x - (uint32_t)y); break;
    case 2: v = (int32_t)((uint32_t)x * (uint32_t)y); break;
    case 3: v = y == -1 ? (int32_t)(0u - (uint32_t)x) : x / y; break;
    case 5: v = x < y; break;
    case 6: v = x > y; break;
    case 7: v = x <= y; break;
    case 8: v = x >= y; break;
    }
    nsym_check(r.is_int(v), "int op int is an int"); return;
  }
  if (na && nb) {
    float x = a.v.asf(), y = b.v.asf();
    switch (op) {
    case 0: nsym_check(r.ok && r.v->is_a<val_type_float>() && same(Val::Flt(r.v->f), Val::Flt(x + y)), "float + is single precision"); break;
    case 1: nsym_check(r.ok && r.v->is_a<val_type_float>() && same(Val::Flt(r.v->f), Val::Flt(x - y)), "float - is single precision"); break;
    case 2: nsym_check(r.ok && r.v->is_a<val_type_float>() && same(Val::Flt(r.v->f), Val::Flt(x * y)), "float * is single precision"); break;
    case 3: nsym_check(r.ok && r.v->is_a<val_type_float>() && same(Val::Flt(r.v->f), Val::Flt(x / y)), "float / is single precision and never divides by zero"); break;
    case 5: nsym_check(r.is_int(x < y), "float <"); break;
    case 6: nsym_check(r.is_int(x > y), "float >"); break;
    case 7: nsym_check(r.is_int(x <= y), "float <="); break;
    case 8: nsym_check(r.is_int(x >= y), "float >="); break;
    }
    return;
  }
  if (op == 0 && (a.t == T_STR || b.t == T_STR)) {
    bool can = a.t != T_ARR && a.t != T_SYS && b.t != T_ARR && b.t != T_SYS;
    if (!can) { nsym_check(r.is_err(E::e_bad_type_operation), "a string and an array or system function cannot be added"); return; }
    nsym_check(r.ok && r.v->is_a<val_type_string>(), "adding to a string gives a string");
    if (r.ok && r.v->is_a<val_type_string>()) {
      if (a.t == T_STR && b.t == T_STR) { std::string s = a.v.s + b.v.s; nsym_check(r.is_str(s.data(), 4), "string + string"); }
      if (a.t == T_STR && b.t == T_NONE) { std::string s = a.v.s + "none"; nsym_check(r.is_str(s.data(), 6), "string + none"); }
      if (a.t == T_NONE && b.t == T_STR) { std::string s = "none" + b.v.s; nsym_check(r.is_str(s.data(), 6), "none + string"); }
    }
    return;
  }
  nsym_check(r.is_err(E::e_bad_type_operation), "every other combination is the bad-type error");
}
static void shrink(opnd &o) { // numbers shown as text: keep the digits few (C10 covers them)
  if (o.t == T_INT) { nsym_assume(o.v.i >= -9 && o.v.i <= 99); }
  if (o.t == T_FLT) { o.v = Val::Flt(1.5f); h_float(o.h, 1.5f); }
}
static void pair(int op, int ta, int tb, int sa, int sb) {
  opnd a, b; mkop(a, ta, sa, "a", "0"); mkop(b, tb, sb, "b", "1");
  if (op == 0 && (ta == T_STR || tb == T_STR)) { shrink(a); shrink(b); }
  int second = 0;
  if (ta == T_FUN && tb == T_FUN) { second = nsym_choose("fn", 2); if (second) { size_t p = b.pre.find("fa"); if (p != std::string::npos) b.pre.replace(p, 2, "fb"); p = b.txt.find("fa"); if (p != std::string::npos) b.txt.replace(p, 2, "fb"); } }
  std::string s = GL; s += "function main(a,b)\n" + a.pre + b.pre + " return " + a.txt + " " + OPS[op] + " " + b.txt + "\nend\n";
  s += "function ok(a,b)\n return a - b\nend\n";
  nsym_note(s.c_str());
  world w; MUST_COMPILE(w, s);
  vm_t vm(w.prog); vm.call_init();
  hval h[2]; h[0] = a.h; h[1] = b.h; h[0].p = (value_t *)h[0].mem; h[1].p = (value_t *)h[1].mem;
  result r = run(vm, "main", 2, h);
  judge(r, op, a, b, !second);
  h_int(h[0], 7); h_int(h[1], 4);
  result r2 = run(vm, "ok", 2, h);
  nsym_check(r2.is_int(3), "the machine still works after any combination");
}
// every operator and ordered pair of types, operands in locals
extern "C" void c02_pairs() { pair(nsym_arg(0), nsym_choose("ta", NT), nsym_choose("tb", NT), 1, 1); }
//@ entry c02_pairs args=0-9 time=120

// the same for other places a value can come from
extern "C" void c02_src() {
  static const int S[][2] = {{0, 0}, {2, 3}, {3, 2}, {4, 1}, {0, 4}};
  int k = nsym_choose("src", 5);
  pair(nsym_arg(0), nsym_choose("ta", NT), nsym_choose("tb", NT), S[k][0], S[k][1]);
}
//@ entry c02_src args=0-9 time=120

// one operand of a literal: integer, decimal, string, none
extern "C" void c02_lit() {
  int op = nsym_arg(0), side = nsym_choose("side", 2), lk = nsym_choose("lit", 5), t = nsym_choose("t", NT);
  opnd o; mkop(o, t, 1, "a", "0");
  opnd l; l.t = lk == 0 ? T_INT : lk == 1 || lk == 4 ? T_FLT : lk == 2 ? T_STR : T_NONE;
  l.txt = lk == 0 ? "3" : lk == 1 ? "2.5" : lk == 2 ? "\"qx\"" : lk == 4 ? "0.0" : "none";
  l.v = lk == 0 ? Val::Int(3) : lk == 1 ? Val::Flt(2.5f) : lk == 2 ? Val::Str("qx") : lk == 4 ? Val::Flt(0.f) : Val();
  if (op == 0 && (l.t == T_STR || t == T_STR)) shrink(o);
  std::string s = GL; s += "function main(a)\n" + o.pre + " return " + (side ? l.txt + " " + OPS[op] + " " + o.txt : o.txt + " " + OPS[op] + " " + l.txt) + "\nend\n";
  nsym_note(s.c_str());
  world w; MUST_COMPILE(w, s);
  vm_t vm(w.prog); vm.call_init();
  result r = run(vm, "main", 1, &o.h);
  if (op == 9 && l.t == T_STR && t == T_STR) { nsym_check(r.is_int(o.v.s[0] == 'q'), "string == literal"); return; }
  if (side) judge(r, op, l, o, true); else judge(r, op, o, l, true);
}
//@ entry c02_lit args=0-9 time=120

// unary minus, once, twice and inside other operators
extern "C" void c02_neg() {
  int t = nsym_choose("t", NT), src = nsym_choose("src", 5), k = nsym_choose("k", 5);
  opnd o; mkop(o, t, src, "a", "0");
  static const char *P[] = {"-@", "- -@", "-(-@)", "-(@)", "- - -@"};
  std::string e; for (const char *q = P[k]; *q; q++) { if (*q == '@') e += o.txt; else e += *q; }
  std::string s = GL; s += "function main(a)\n" + o.pre + " return " + e + "\nend\n";
  world w; MUST_COMPILE(w, s);
  vm_t vm(w.prog); vm.call_init();
  result r = run(vm, "main", 1, &o.h);
  bool even = k == 1 || k == 2;
  if (t == T_INT) nsym_check(r.is_int(even ? o.v.i : (int32_t)(0u - (uint32_t)o.v.i)), "-int");
  else if (t == T_FLT) nsym_check(r.ok && r.v->is_a<val_type_float>() && same(Val::Flt(r.v->f), Val::Flt(even ? o.v.f : -o.v.f)), "-float flips the sign");
  else nsym_check(r.is_err(thread_error_t::e_bad_type_operation), "- of anything else is the bad-type error");
}
//@ entry c02_neg

// function values anywhere in a program of any size: equal exactly when they are the same function
extern "C" void c02_funcs() {
  int32_t x = nsym_int("x"), y = nsym_int("y"); int how = nsym_choose("how", 3);
  nsym_assume(x >= 0 && y >= 0);
  std::string s = "function main(a,b)\n";
  s += how == 0 ? " return a == b\n" : how == 1 ? " var v = [a, b]\n return v[0] == v[1]\n" : " if (a == b)\n return 1\n end\n return 0\n";
  s += "end\n";
  world w; MUST_COMPILE(w, s);
  vm_t vm(w.prog); vm.call_init();
  hval h[2]; h_func(h[0], x); h_func(h[1], y);
  nsym_check(run(vm, "main", 2, h).is_int(x == y), "function == function is identity, wherever the functions are");
}
//@ entry c02_funcs

// compound assignment follows the same rules
extern "C" void c02_comp() {
  int op = nsym_arg(0);
  opnd a, b; mkop(a, nsym_choose("ta", NT), 1, "a", "0"); mkop(b, nsym_choose("tb", NT), 1, "b", "1");
  if (op == 0 && (a.t == T_STR || b.t == T_STR)) { shrink(a); shrink(b); }
  std::string s = GL; s += "function main(a,b)\n" + a.pre + b.pre + " l0 " + OPS[op] + "= l1\n return l0\nend\n";
  world w; MUST_COMPILE(w, s);
  vm_t vm(w.prog); vm.call_init();
  hval h[2]; h[0] = a.h; h[1] = b.h; h[0].p = (value_t *)h[0].mem; h[1].p = (value_t *)h[1].mem;
  result r = run(vm, "main", 2, h);
  judge(r, op, a, b, true);
}
//@ entry c02_comp args=0-3 time=120

// a bad operation stops the thread: nothing after it runs
extern "C" void c02_stop() {
  int op = nsym_arg(0), tb = nsym_choose("tb", NT);
  Prog p;
  Node *bv = tb == T_NONE ? none() : tb == T_INT ? lit(2) : tb == T_FLT ? flt("2.5") : tb == T_STR ? str("s") : tb == T_ARR ? arr({lit(1)}) : tb == T_FUN ? var("f") : lit(1);
  p.fn("f", {"x", "y"}, block({tr(lit(1)), decl("z", bin(OPS[op], var("x"), var("y"))), tr(lit(2)), ret(lit(4))}));
  p.fn("main", {"a"}, block({tr(call("f", {arr({lit(1)}), bv})), tr(lit(3)), ret(lit(0))}));
  agree(p, "main", {Val::Int(nsym_int("a"))}, "a bad-type operation stops the thread at once");
}
//@ entry c02_stop args=0-9
// operands of all types in every form
extern "C" void c02_mix() {
  int op = nsym_arg(0), ta = nsym_choose("ta", NT), tb = nsym_choose("tb", NT), k = nsym_choose("k", NFORM);
  if (op == 0 && ((ta == T_STR && tb == T_FUN) || (ta == T_FUN && tb == T_STR))) return;  // text of a function: C10
  auto e = [](int t, const char *nm) -> Node * { switch (t) { case T_NONE: return none(); case T_INT: return lit(nm[0] == 'a' ? 7 : 2); case T_FLT: return flt("2.5"); case T_STR: return str(nm); case T_ARR: return arr({lit(1), lit(2)}); case T_FUN: return var("id"); } return var("len"); };
  Node *x = e(ta, "a"), *y = e(tb, "b"); if ((op + k) & 1) x = formv(k, x); else y = formv(k, y);
  Prog p; mix(p, (op + ta + tb + k) % 2 ? 0 : 1, bin(OPS[op], x, y));
  agree(p, "main", {Val::Int(nsym_int("a")), Val::Int(nsym_int("b"))}, "the type rules hold for every form of operand");
}
//@ entry c02_mix args=0-9 time=150
//@ bounds operands of all 7 types in either position, all 10 binary operators, unary minus and the 4 compound assignments; all int and float bit patterns; strings of two characters with one symbolic
//@ bounds operand sources: direct, local, global, array element, call result, literal
//@ outside user-defined value types; more than one bad operation per script; textual form of numbers (C10)
