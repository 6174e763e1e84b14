// C01: 32-bit integer arithmetic and comparison
#include "ref.hpp"
#include "mix.hpp"
using namespace ref;
static const char *OPS[] = {"+", "-", "*", "/", "%", "<", ">", "<=", ">=", "=="};
static const char *COPS[] = {"+", "-", "*", "/"};

// the exact result, or the error
static void expect(const result &r, int op, int32_t a, int32_t b) {
  if (op == 3 || op == 4) {
    if (b == 0) { nsym_check(r.is_err(thread_error_t::e_bad_divide_by_zero), "division by zero is the divide-by-zero error"); return; }
    int64_t q = (int64_t)a / (int64_t)b, m = (int64_t)a - q * (int64_t)b;
    if (b == -1) { q = -(int64_t)a; m = 0; }
    else { q = a / b; m = a % b; }
    nsym_check(r.ok, "division by a non-zero value succeeds");
    nsym_check(r.is_int((int32_t)(op == 3 ? q : m)), "a/b truncates towards zero and a%b has the sign of a");
    return;
  }
  int32_t v = 0;
  switch (op) {
  case 0: v = (int32_t)((uint32_t)a + (uint32_t)b); break;
  case 1: v = (int32_t)((uint32_t)a - (uint32_t)b); break;
  case 2: v = (int32_t)((uint32_t)a * (uint32_t)b); break;
  case 5: v = (int64_t)a < (int64_t)b; break;
  case 6: v = (int64_t)a > (int64_t)b; break;
  case 7: v = (int64_t)a <= (int64_t)b; break;
  case 8: v = (int64_t)a >= (int64_t)b; break;
  case 9: v = (a ^ b) == 0; break;
  }
  nsym_check(r.is_int(v), "integer operators are exact modulo 2^32");
}
// operand sources: 0 argument, 1 local, 2 global, 3 array element, 4 call result,
// 5 global array element, 6 literal
struct operand { std::string pre, txt; };
static operand src(int kind, const char *arg, const char *tag) {
  operand o; std::string A = arg, T = tag;
  switch (kind) {
  case 0: o.txt = A; break;
  case 1: o.pre = " var l" + T + " = " + A + "\n"; o.txt = "l" + T; break;
  case 2: o.pre = " g" + T + " = " + A + "\n"; o.txt = "g" + T; break;
  case 3: o.pre = " var r" + T + " = [7, " + A + ", 9]\n"; o.txt = "r" + T + "[1]"; break;
  case 4: o.txt = "id(" + A + ")"; break;
  case 5: o.pre = " ga[" + T + "] = " + A + "\n"; o.txt = "ga[" + T + "]"; break;
  }
  return o;
}
static const char *GL = "var g0 = 3\nvar g1 = 4\nvar ga = [1,2]\nfunction id(x)\n return x\nend\n";

// every operator, every pair of operand sources, all 2^64 operand pairs
extern "C" void c01_bin() {
  int op = nsym_arg(0), ka = nsym_choose("ka", 6), kb = nsym_choose("kb", 6);
  operand x = src(ka, "a", "0"), y = src(kb, "b", "1");
  std::string s = GL; s += "function main(a,b)\n" + x.pre + y.pre + " return " + x.txt + " " + OPS[op] + " " + y.txt + "\nend\n";
  nsym_note(s.c_str());
  world w; MUST_COMPILE(w, s);
  vm_t vm(w.prog); vm.call_init();
  int a = nsym_int("a"), b = nsym_int("b");
  hval h[2]; h_int(h[0], a); h_int(h[1], b);
  result r = run(vm, "main", 2, h);
  expect(r, op, a, b);
  // the host and the machine survive: it can be used again
  h_int(h[0], 5); h_int(h[1], 3);
  result r2 = run(vm, "main", 2, h);
  expect(r2, op, 5, 3);
}
//@ entry c01_bin args=0-9

// the operands' own storage is not changed, and the value can be kept
extern "C" void c01_keep() {
  int op = nsym_arg(0);
  std::string s = "var g\nfunction main(a,b)\n var x = a\n var y = b\n g = x "; s += OPS[op]; s += " y\n var z = x "; s += OPS[op];
  s += " y\n var u = (x == a) * (y == b) * (g == z)\n if (not u)\n  return none\n end\n return z\nend\n";
  world w; MUST_COMPILE(w, s);
  vm_t vm(w.prog); vm.call_init();
  int a = nsym_int("a"), b = nsym_int("b");
  hval h[2]; h_int(h[0], a); h_int(h[1], b);
  result r = run(vm, "main", 2, h);
  expect(r, op, a, b);
}
//@ entry c01_keep args=0-9

// one operand a literal of symbolic digits, on either side
static int digits(std::string &o, const char *nm, int n) {
  uint32_t v = 0;
  for (int i = 0; i < n; i++) { unsigned char c = nsym_u8(nm); nsym_assume(c >= '0' && c <= '9'); o += (char)c; v = v * 10 + (c - '0'); }
  return (int)v;
}
extern "C" void c01_lit() {
  int op = nsym_arg(0), side = nsym_arg(1), nd = nsym_choose("nd", 3);
  nd = nd == 0 ? 1 : nd == 1 ? 3 : 10;
  std::string d; int lv = digits(d, "dig", nd);
  std::string s = "function main(a)\n return ";
  s += side ? d + " " + OPS[op] + " a" : std::string("a ") + OPS[op] + " " + d;
  s += "\nend\n";
  world w; MUST_COMPILE(w, s);
  vm_t vm(w.prog); vm.call_init();
  int a = nsym_int("a");
  hval h; h_int(h, a);
  result r = run(vm, "main", 1, &h);
  if (side) expect(r, op, lv, a); else expect(r, op, a, lv);
}
//@ entry c01_lit args=0-9 args1=0-1

// both operands literals (folded by the compiler) with and without the optimiser
extern "C" void c01_fold() {
  int op = nsym_arg(0), opt = nsym_choose("opt", 2), form = nsym_choose("form", 4), na = nsym_choose("na", 2), nb = nsym_choose("nb", 2);
  std::string da, db; int a = digits(da, "da", na ? 10 : 2), b = digits(db, "db", nb ? 10 : 2);
  if (form & 1) { da = "(-" + da + ")"; a = (int)(0u - (uint32_t)a); }
  if (form & 2) { db = "(-" + db + ")"; b = (int)(0u - (uint32_t)b); }
  std::string s = "function main()\n return " + da + " " + OPS[op] + " " + db + "\nend\n";
  world w;
  if (op == 3 || op == 4) {
    bool ok = w.compile(s, opt != 0);
    if (!ok) { nsym_check(b == 0, "only a constant division by zero is rejected"); return; }
    if (b == 0 && opt) { nsym_check(0, "a constant division by constant zero is reported"); return; }
  } else MUST_COMPILE(w, s, opt != 0);
  vm_t vm(w.prog); vm.call_init();
  result r = run(vm, "main");
  expect(r, op, a, b);
}
//@ entry c01_fold args=0-9

// -a, twice negated, and negated in an operand position
extern "C" void c01_neg() {
  int k = nsym_choose("ka", 6), form = nsym_choose("form", 3);
  operand x = src(k, "a", "0");
  std::string s = GL; s += "function main(a)\n" + x.pre + " return " + (form == 0 ? "-" + x.txt : form == 1 ? "-(-" + x.txt + ")" : "3 - -" + x.txt) + "\nend\n";
  world w; MUST_COMPILE(w, s);
  vm_t vm(w.prog); vm.call_init();
  int a = nsym_int("a"); hval h; h_int(h, a);
  result r = run(vm, "main", 1, &h);
  uint32_t n = 0u - (uint32_t)a;
  nsym_check(r.is_int((int32_t)(form == 0 ? n : form == 1 ? (uint32_t)a : 3u - n)), "-a is the two's complement negation");
}
//@ entry c01_neg

// compound assignment of every target to every operand source
extern "C" void c01_comp() {
  int op = nsym_arg(0), tgt = nsym_choose("tgt", 3), kb = nsym_choose("kb", 6), ex = nsym_choose("ex", 2);
  operand y = src(kb, "b", "1");
  const char *t = tgt == 0 ? "a" : tgt == 1 ? "l" : "g0";
  std::string s = GL; s += "function main(a,b)\n" + y.pre;
  if (tgt == 1) s += " var l = a\n";
  if (tgt == 2) s += " g0 = a\n";
  std::string rhs = ex ? y.txt + " - 1" : y.txt;
  s += std::string(" ") + t + " " + COPS[op] + "= " + rhs + "\n return " + t + "\nend\n";
  nsym_note(s.c_str());
  world w; MUST_COMPILE(w, s);
  vm_t vm(w.prog); vm.call_init();
  int a = nsym_int("a"), b = nsym_int("b");
  hval h[2]; h_int(h[0], a); h_int(h[1], b);
  result r = run(vm, "main", 2, h);
  expect(r, op, a, ex ? (int)((uint32_t)b - 1u) : b);
}
//@ entry c01_comp args=0-3

// compound assignment by a literal of symbolic digits
extern "C" void c01_compl() {
  int op = nsym_arg(0), tgt = nsym_choose("tgt", 3), nd = nsym_choose("nd", 2);
  std::string d; int lv = digits(d, "dig", nd ? 10 : 2);
  const char *t = tgt == 0 ? "a" : tgt == 1 ? "l" : "g0";
  std::string s = GL; s += "function main(a)\n";
  if (tgt == 1) s += " var l = a\n";
  if (tgt == 2) s += " g0 = a\n";
  s += std::string(" ") + t + " " + COPS[op] + "= " + d + "\n return " + t + "\nend\n";
  world w; MUST_COMPILE(w, s);
  vm_t vm(w.prog); vm.call_init();
  int a = nsym_int("a"); hval h; h_int(h, a);
  result r = run(vm, "main", 1, &h);
  expect(r, op, a, lv);
}
//@ entry c01_compl args=0-3

// two operators in a row: intermediate values are full 32-bit integers too
extern "C" void c01_chain() {
  int o1 = nsym_arg(0), o2 = nsym_choose("o2", 10);
  if ((o1 >= 3 && o1 <= 4) && (o2 >= 3 && o2 <= 4)) return;
  Prog p; p.fn("main", {"a", "b", "c"}, block({ret(bin(OPS[o2], bin(OPS[o1], var("a"), var("b")), var("c")))}));
  agree(p, "main", {Val::Int(nsym_int("a")), Val::Int(nsym_int("b")), Val::Int(nsym_int("c"))}, "chained integer operators are exact");
}
//@ entry c01_chain args=0-9

// a thread that divides by zero stops; nothing after it runs
extern "C" void c01_stop() {
  int op = nsym_choose("op", 4), pos = nsym_choose("pos", 3);
  const char *o = op & 1 ? "%" : "/";
  Prog p;
  p.fn("f", {"a", "b"}, block({tr(lit(1)), decl("x", bin(o, var("a"), var("b"))), tr(var("x")), ret(var("x"))}));
  Node *c = call("f", {var("a"), var("b")});
  if (op & 2) p.fn("main", {"a", "b"}, block({while_(lit(1), block({tr(c), ret(lit(5))}))}));
  else if (pos == 0) p.fn("main", {"a", "b"}, block({tr(c), tr(lit(3)), ret(lit(2))}));
  else if (pos == 1) p.fn("main", {"a", "b"}, block({decl("y", arr({lit(1), c})), tr(lit(3)), ret(idx(var("y"), lit(1)))}));
  else p.fn("main", {"a", "b"}, block({ret(bin("+", c, call("f", {lit(9), lit(2)})))}));
  agree(p, "main", {Val::Int(nsym_int("a")), Val::Int(nsym_int("b"))}, "division by zero stops the thread at once");
}
//@ entry c01_stop
// operands in every form, the result in every position
extern "C" void c01_mix() {
  static const char *OPS[] = {"+", "-", "*", "/", "%", "<", ">", "<=", ">=", "=="};
  int op = nsym_arg(0), pos = nsym_choose("pos", NPOS), k = nsym_choose("k", nsym_tier() ? 2 * NFORM : NFORM), n = k % NFORM;
  bool right = nsym_tier() ? k >= NFORM : pos & 1;
  Prog p; mix(p, pos, bin(OPS[op], formv(right ? 0 : n, var("a")), formv(right ? n : 0, var("b"))));
  agree(p, "main", {Val::Int(nsym_int("a")), Val::Int(nsym_int("b"))}, "integer operators are exact wherever they stand");
}
//@ entry c01_mix args=0-9 time=150
//@ bounds operands: all 2^32 values of each variable; literals of 1, 2, 3 and 10 digits, all digits; one or two operators per expression
//@ bounds operand sources: argument, local, global, array element (local and global array), call result, literal
//@ outside chains of three and more operators (covered by C04 for precedence), division chains a/b/c with all three symbolic
