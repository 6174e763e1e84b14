// C10: strings
#include "ref.hpp"
#include "mix.hpp"
using namespace ref;
static const char *M = "joining, indexing and comparing strings is exact";
static std::string sym(const char *nm, int n) { // n symbolic non-zero bytes
  std::string s(n, ' ');
  for (int i = 0; i < n; i++) { unsigned char c = nsym_u8(nm); nsym_assume(c != 0); s[i] = (char)c; }
  return s;
}
static std::string any(const char *nm, int n) { std::string s(n, ' '); for (int i = 0; i < n; i++) s[i] = (char)nsym_u8(nm); return s; }
static std::string dec(int v) { char b[16]; snprintf(b, sizeof b, "%d", v); return b; }
static void hs(hval &h, const std::string &s) { h_str(h, s.data(), (int)s.size()); }
// all contents up to 4 + 4 bytes, each operand from an argument, local, global, array element, call
extern "C" void c10_join() {
  int na = nsym_arg(0), nb = nsym_arg(1), via = nsym_choose("via", 5);
  std::string a = any("a", na), b = any("b", nb);
  static const char *E[] = {" return a + b\n", " var x = a\n x += b\n return x\n", " g = a\n g = g + b\n return g\n", " var r = [a, b]\n return r[0] + r[1]\n", " var keep = a\n var k2 = b\n a += b\n b = a\n if (keep + k2 == b)\n  return a\n end\n return 0\n"};
  world w; MUST_COMPILE(w, std::string("var g\nfunction main(a, b)\n") + E[via] + "end\n");
  vm_t vm(w.prog); vm.call_init(); hval h[2]; hs(h[0], a); hs(h[1], b);
  result r = run(vm, "main", 2, h);
  std::string c = a + b;
  nsym_check(r.is_str(c.data(), (int)c.size()), "a + b is the characters of a followed by those of b");
}
//@ entry c10_join args=0-4 args1=0-4
// every byte, and its code back; every index
extern "C" void c10_index() {
  int n = nsym_arg(0), k = nsym_choose("k", 4), i = nsym_int("i"); std::string a = any("a", n);
  static const char *E[] = {" return a[i]\n", " var x = [a]\n return x[0][i]\n", " g = a\n return g[i]\n", " return (\"\" + a)[i]\n"};
  world w; MUST_COMPILE(w, std::string("var g\nfunction main(a, i)\n") + E[k] + "end\n");
  vm_t vm(w.prog); vm.call_init(); hval h[2]; hs(h[0], a); h_int(h[1], i);
  result r = run(vm, "main", 2, h);
  if (i < 0 || i >= n) nsym_check(r.is_err(thread_error_t::e_bad_array_bounds), "an index outside a string is an error");
  else { int j = nsym_conc(i); nsym_check(r.is_int((unsigned char)a[j]), "s[i] is the code of character i"); }
}
//@ entry c10_index args=0-4
extern "C" void c10_equal() {
  int na = nsym_arg(0), nb = nsym_arg(1), k = nsym_choose("k", 3); std::string a = any("a", na), b = any("b", nb);
  static const char *E[] = {" return a == b\n", " var x = a + \"\"\n if (x == b)\n  return 1\n end\n return 0\n", " return (\"p\" + a) == (\"p\" + b)\n"};
  world w; MUST_COMPILE(w, std::string("function main(a, b)\n") + E[k] + "end\n");
  vm_t vm(w.prog); vm.call_init(); hval h[2]; hs(h[0], a); hs(h[1], b);
  result r = run(vm, "main", 2, h);
  int d = na != nb; for (int i = 0; i < na && i < nb; i++) d |= a[i] ^ b[i];
  nsym_check(r.is_int(d == 0), "strings are equal exactly when their characters are");
}
//@ entry c10_equal args=0-4 args1=0-4
// joining with a value of another type inserts its text
extern "C" void c10_text() {
  int side = nsym_arg(0), t = nsym_arg(1); std::string a = any("a", nsym_choose("n", 3));
  std::string lit, txt; hval h[2]; hs(h[0], a); h_int(h[1], 0);
  bool bad = false;
  switch (t) {
  case 0: { int v = nsym_int("v"); h_int(h[1], v); lit = "b"; txt = dec(v); } break;
  case 1: lit = "none"; txt = "none"; break;
  case 2: { static const struct { const char *l, *t; } F[] = {{"1.5", "1.500000"}, {"0.0", "0.000000"}, {"-2.25", "-2.250000"}, {"1234567.0", "1234567.000000"}, {"0.000001", "0.000001"}, {"0.0000001", "0.000000"}, {"16777216.0", "16777216.000000"}, {"0.1", "0.100000"}, {"340000000000000000000000000000000000000.0", "339999995214436424907732413799364296704.000000"}, {"(0.0 - 340000000000000000000000000000000000000.0)", "-339999995214436424907732413799364296704.000000"}, {"99999.999", "100000.000000"}, {"3.999999", "3.999999"}}; int k = nsym_choose("f", 12); lit = F[k].l; txt = F[k].t; } break;
  case 3: lit = "fn"; break;
  case 4: lit = "[1]"; bad = true; break;
  case 5: lit = "len"; bad = true; break;
  case 6: lit = "\"lit\""; txt = "lit"; break;
  case 7: { int v = nsym_choose("f", 8); static const uint32_t B[] = {0x3f800000, 0xbf800000, 0x80000000, 0x7f800000, 0xff800000, 0x7f7fffff, 0x00000001, 0xff7fffff}; static const char *T[] = {"1.000000", "-1.000000", "-0.000000", "inf", "-inf", "340282346638528859811704183484516925440.000000", "0.000000", "-340282346638528859811704183484516925440.000000"}; h_float_bits(h[1], B[v]); lit = "b"; txt = T[v]; } break;
  case 8: { int v = nsym_int("v"); nsym_assume(v >= 0); h_func(h[1], v); lit = "b"; txt = "function@" + dec(v); } break;
  }
  std::string e = side ? lit + " + a" : "a + " + lit;
  world w; MUST_COMPILE(w, "function pad()\n return 1\nend\nfunction fn()\n return 0\nend\nfunction main(a, b)\n return " + e + "\nend\n");
  if (t == 3) txt = "function@" + std::to_string(w.prog.function_find("fn")->code_start_);
  vm_t vm(w.prog); vm.call_init();
  result r = run(vm, "main", 2, h);
  if (bad) { nsym_check(r.is_err(thread_error_t::e_bad_type_operation), "an array or system function has no text"); return; }
  std::string c = side ? txt + a : a + txt;
  nsym_check(r.is_str(c.data(), (int)c.size()), "joining inserts the full text of the other operand");
}
//@ entry c10_text args=0-1 args1=0-8
// the text of every integer, checked digit by digit
extern "C" void c10_int() {
  int v = nsym_int("v"); hval h; h_int(h, v);
  world w; MUST_COMPILE(w, "function main(v)\n return \"\" + v\nend\n");
  vm_t vm(w.prog); vm.call_init(); result r = run(vm, "main", 1, &h);
  nsym_check(r.ok && r.v->is_a<val_type_string>(), "an integer joined with a string is a string");
  std::string c = dec(v);
  nsym_check(r.is_str(c.data(), (int)c.size()), "an integer's text is its decimal form");
}
//@ entry c10_int
// chains of joins, left to right, mixing strings, numbers and none
extern "C" void c10_chain() {
  int k = nsym_arg(0), v = nsym_range("v", -20, 120);
  std::string a = any("a", nsym_choose("n", 3)), s = dec(v), e;
  static const char *E[] = {"a + v + a", "v + a + v", "a + (v + 1)", "v + 1 + a", "a + v + 1", "a + none + v", "\"x\" + a + \"y\" + a + \"z\"", "a + (a == a)", "a + [v][0]", "a + id(a) + id(v)", "a + \"=\" + v + \", \" + 1.5", "a + - v", "(a + v)[0] + a"};
  std::string W[] = {a + s + a, s + a + s, a + dec(v + 1), dec(v + 1) + a, a + s + "1", a + "none" + s, "x" + a + "y" + a + "z", a + "1", a + s, a + a + s, a + "=" + s + ", 1.500000", a + dec(-v), dec((unsigned char)((a + s)[0])) + a};
  world w; MUST_COMPILE(w, std::string("function id(x)\n return x\nend\nfunction main(a, v)\n return ") + E[k] + "\nend\n");
  vm_t vm(w.prog); vm.call_init(); hval h[2]; hs(h[0], a); h_int(h[1], v);
  result r = run(vm, "main", 2, h);
  nsym_check(r.is_str(W[k].data(), (int)W[k].size()), "chains of joins");
}
//@ entry c10_chain args=0-12
// strings are values: changing one name leaves the others
extern "C" void c10_value() {
  int k = nsym_arg(0); std::string a = any("a", 2), b = any("b", 1);
  static const char *E[] = {
    " var x = a\n x += b\n return a\n", " var x = [a, a]\n var y = x[0]\n y += b\n return x[0] + x[1]\n", " ap(a, b)\n return a\n", " g = a\n ag(b)\n return a + g\n",
    " var x = a\n var y = x\n x = b\n return y + x\n", " var x = [a]\n var y = x[0]\n x[0] = b\n return y + x[0]\n", " var i = 0\n var s = \"\"\n while (i < 3)\n  var l = \"k\"\n  l += a\n  s += l\n  i += 1\n end\n return s\n", " lit()\n lit()\n return lit() + a\n"};
  std::string W[] = {a, a + a, a, a + a + b, a + b, a + b, "k" + a + "k" + a + "k" + a, "lit!" + a};
  world w; MUST_COMPILE(w, std::string("var g\nfunction ap(x, y)\n x += y\n return x\nend\nfunction ag(y)\n g += y\nend\nfunction lit()\n var x = \"lit\"\n x += \"!\"\n return x\nend\nfunction main(a, b)\n") + E[k] + "end\n");
  vm_t vm(w.prog); vm.call_init(); hval h[2]; hs(h[0], a); hs(h[1], b);
  result r = run(vm, "main", 2, h);
  nsym_check(r.is_str(W[k].data(), (int)W[k].size()), "strings are immutable values");
}
//@ entry c10_value args=0-7
// literals hold their characters verbatim
extern "C" void c10_literal() {
  int n = nsym_arg(0), q = nsym_choose("two", 2); std::string a = sym("a", n);
  for (int i = 0; i < n; i++) { nsym_assume(a[i] != '"'); nsym_assume(a[i] != '\n'); nsym_assume(a[i] != '\r'); }
  std::string s = "function main()\n var x = \"" + a + "\"\n return x" + (q ? " + \"/\" + \"" + a + "\"" : std::string()) + "\nend\n", W = q ? a + "/" + a : a;
  world w; MUST_COMPILE(w, s);
  vm_t vm(w.prog); vm.call_init(); result r = run(vm, "main");
  nsym_check(r.is_str(W.data(), (int)W.size()), "a string literal holds its characters verbatim");
}
//@ entry c10_literal args=0-4
// stores into strings, and other things strings cannot do
extern "C" void c10_bad() {
  int k = nsym_arg(0), v = nsym_int("v"); std::string a = sym("a", 2);
  static const char *E[] = {"a[0] = v", "var x = a - v", "var x = a * a", "var x = a / a", "var x = a % v", "var x = a < a", "var x = a >= v", "var x = - a", "var x = a == v", "var x = v == a", "var x = a(v)", "var x = a.length", "var x = a[a]", "var x = a[1.0]", "var x = a[none]"};
  world w; MUST_COMPILE(w, std::string("function main(a, v)\n ") + E[k] + "\n return 7\nend\n");
  vm_t vm(w.prog); vm.call_init(); hval h[2]; hs(h[0], a); h_int(h[1], v);
  result r = run(vm, "main", 2, h);
  using T = thread_error_t;
  T want = k == 0 ? T::e_bad_array_object : k < 11 ? T::e_bad_type_operation : k == 11 ? T::e_bad_member_access : T::e_bad_array_index;
  nsym_check(r.is_err(want), "what strings cannot do is an error");
}
//@ entry c10_bad args=0-14
// long strings
extern "C" void c10_long() {
  int k = nsym_arg(0), n = nsym_arg(1); unsigned char c = nsym_u8("c"); nsym_assume(c != 0);
  std::string big(n, 'm'); for (int i = 0; i < n; i++) big[i] = (char)('a' + i % 26);
  std::string s = "function big()\n return \"" + big + "\"\nend\nfunction main(a)\n", W; hval h; char cs[2] = {(char)c, 0}; h_str(h, cs, 1);
  std::string a(1, (char)c);
  switch (k) {
  case 0: s += " return a + big()\n"; W = a + big; break;
  case 1: s += " return big() + a\n"; W = big + a; break;
  case 2: s += " return big() + a + big()\n"; W = big + a + big; break;
  case 3: s += " var x = big()\n var y = [x, x + a]\n return y[1]\n"; W = big + a; break;
  case 4: s += " return (big() + a) == (big() + \"q\")\n"; break;
  case 5: s += " var x = a + big()\n return x[len(x) - 1] * 1000 + x[0]\n"; break;
  case 6: s += " return 12345 + big() + 6\n"; W = "12345" + big + "6"; break;
  }
  s += "end\n";
  world w; MUST_COMPILE(w, s);
  vm_t vm(w.prog); vm.call_init(); result r = run(vm, "main", 1, &h);
  if (k == 4) { nsym_check(r.is_int(c == 'q'), "long strings compare in full"); return; }
  if (k == 5) { nsym_check(r.is_int((unsigned char)big[n - 1] * 1000 + c), "the ends of a long string"); return; }
  nsym_check(r.is_str(W.data(), (int)W.size()), "long strings join in full");
}
//@ entry c10_long args=0-6 args1=60,64,127,128,255,256,257,1023,1024,5000 targs1=60,64,127,128,255,256,257,511,512,1023,1024,5000,33000,70000 steps=2000000000
// many literals that are nearly the same, in one program
extern "C" void c10_table() {
  int n = nsym_arg(0), at = nsym_choose("at", 3), m = n > 30 ? 6 : 14, q = nsym_choose("q", m); int k = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
  std::string t; for (int i = 0; i < n; i++) t += (char)('a' + i * 7 % 26); char c = (char)nsym_u8("c"); nsym_assume((c != 0) & (c != '"') & (c != '\n') & (c != '\r'));
  std::vector<std::string> l; for (int i = 0; i < m; i++) { std::string x = t; if (i == 0) x[k] = c; else if (i == 1) x = t.substr(0, n - 1); else if (i == 2) x = t + "a"; else if (i == 3) x[k] = (char)(x[k] - 32); else if (i == 4) ; else if (i == 5) x = t.substr(1); else x[(k + i) % n] = (char)('0' + i - 5); l.push_back(x); }
  std::string s = "const K = \"" + l[0] + "\"\nvar g = \"" + l[m - 1] + "\"\n";
  for (int i = 0; i < m; i++) s += "function f" + std::to_string(i) + "()\n return \"" + l[i] + "\"\nend\n";
  s += "function main(q)\n var a = ["; for (int i = 0; i < m; i++) s += (i ? ", \"" : "\"") + l[i] + "\""; s += "]\n return a[q] + \"|\" + ["; for (int i = 0; i < m; i++) s += (i ? ", f" : "f") + std::to_string(i); s += "][q]() + \"|\" + K + \"|\" + g\nend\n";
  world w; MUST_COMPILE(w, s); vm_t vm(w.prog); vm.call_init(); hval h; h_int(h, q); result r = run(vm, "main", 1, &h); std::string W = l[q] + "|" + l[q] + "|" + l[0] + "|" + l[m - 1];
  nsym_check(r.is_str(W.data(), (int)W.size()), "a string literal holds its characters verbatim");
}
//@ entry c10_table args=1,2,3,5,9,17,33,65 targs=1-20,33,65,129,257 steps=100000000
// growing a string step by step
extern "C" void c10_grow() {
  int n = nsym_arg(0); std::string a = sym("a", 3);
  world w; MUST_COMPILE(w, "function main(a, n)\n var s = \"\"\n var i = 0\n while (i < n)\n  s += a\n  i += 1\n end\n return s\nend\n");
  vm_t vm(w.prog); vm.call_init(); hval h[2]; hs(h[0], a); h_int(h[1], n);
  result r = run(vm, "main", 2, h); std::string W; for (int i = 0; i < n; i++) W += a;
  nsym_check(r.is_str(W.data(), (int)W.size()), "a string grows by what is added");
}
//@ entry c10_grow args=1,20,43,85,86,120
// strings in every form and position
extern "C" void c10_mix() {
  int pos = nsym_arg(0), k = nsym_choose("k", NFORM), t = nsym_choose("t", 6), j = nsym_choose("j", 3);
  std::string a = sym("a", 2), b = sym("b", nsym_choose("n", 2)); static const int J[] = {0, 2, 14};
  ref::Node *s = ref::formv(J[j], ref::var("a")), *e = nullptr;
  switch (t) { case 0: e = ref::bin("+", s, ref::formv(J[(j + 1) % 3], ref::var("b"))); break; case 1: e = ref::bin("+", s, ref::str("-x")); break; case 2: e = ref::bin("==", s, ref::var("b")); break; case 3: e = ref::idx(s, ref::lit(1)); break; case 4: e = ref::bin("+", ref::lit(12), s); break; case 5: e = ref::call("len", {ref::bin("+", s, ref::var("b"))}); break; }
  ref::Prog p; ref::mix(p, pos, k < 3 ? ref::formv(k == 1 ? 2 : k == 2 ? 14 : 0, e) : ref::formv(k, e));
  ref::agree(p, "main", {ref::Val::Str(a), ref::Val::Str(b)}, "strings behave the same in every form and position");
}
//@ entry c10_mix args=0-21 time=150
//@ bounds operands up to 4 symbolic bytes each (all 256 values, zero included), all integers as text, 20 chosen floats, any 32-bit index; concrete strings to 5000 (thorough 70000) characters joined with one symbolic byte; up to 14 nearly equal literals of up to 65 characters in one program
//@ outside zero bytes in strings longer than that; other floats' decimal text (printf's %f is trusted)
