// C20: the built-in functions
#include "ref.hpp"
#include <math.h>
using namespace ref;
static const char *W = "a built-in function gives its documented result", *B = "an argument a built-in does not take is the bad-argument error", *N = "pending values survive a call of a built-in";
using E = thread_error_t;
struct bi { const char *n; int args; };
static const bi tab[] = {{"abs", 1}, {"bitand", 2}, {"min", 2}, {"max", 2}, {"len", 1}, {"chr", 1}, {"sqrt", 1}, {"sin", 1}, {"cos", 1}, {"tan", 1}, {"round", 1}, {"ceil", 1}, {"floor", 1}, {"new_array", 1}, {"wait", 1}, {"new_thread", -1}};
enum { ABS, BITAND, MIN, MAX, LEN_, CHR, SQRT, SIN, COS, TAN, ROUND, CEIL, FLOOR, NEWARR, WAIT, NEWTHR, NB };
// how the call is written; the value of the call is what the function returns
static std::string wrap(int form, const std::string &f, const std::string &a) {
  std::string c = f + "(" + a + ")";
  switch (form) {
  case 0: return " return " + c + "\n";
  case 1: return " var r = " + c + "\n return r\n";
  case 2: return " var fp = " + f + "\n return fp(" + a + ")\n";
  case 3: return " var z = [1, " + c + ", 2]\n if (z[0] == 1 and z[2] == 2 and len(z) == 3)\n  return z[1]\n end\n return \"lost\"\n";
  default: return " var r\n var k = 7\n while (k == 7)\n  r = " + c + "\n  k = 8\n end\n return r\n";
  }
}
static const int FORMS = 5;
// any 32-bit pattern without NaN
static float anyfloat(const char *n) { float f = fval((uint32_t)nsym_int(n)); nsym_assume(f == f); return f; }
// numbers: an integer or a float
struct num { bool fl; int i; float f; float asf() const { return fl ? f : (float)i; } };
static num anynum(const char *n) { num x; x.fl = nsym_choose("isfloat", 2); x.i = 0; x.f = 0; if (x.fl) x.f = anyfloat(n); else x.i = nsym_int(n); return x; }
static void put(hval &h, const num &x) { if (x.fl) h_float(h, x.f); else h_int(h, x.i); }
static bool near(float a, float b) { if (fbits(a) == fbits(b)) return true; if (a != a) return b != b; if (a == b) return true; float m = fabsf(a) > fabsf(b) ? fabsf(a) : fabsf(b), d = a - b; return fabsf(d) <= m * 1e-6f || fabsf(d) < 1e-30f; }

extern "C" void c20_unary() {
  int k = nsym_arg(0), form = nsym_arg(1); num x = anynum("x");
  std::string s = std::string("function m(a)\n") + wrap(form, tab[k].n, "a") + "end\n"; world w; MUST_COMPILE(w, s);
  vm_t vm(w.prog); vm.call_init(); hval h[1]; put(h[0], x); result r = run(vm, "m", 1, h); float f = x.asf();
  switch (k) {
  case ABS: nsym_check(r.ok, W); if (!r.ok) return;
    if (x.fl) { nsym_check(r.v->is_a<val_type_float>() && r.v->f == (f < 0 ? -f : f), W); }
    else nsym_check(r.v->is_a<val_type_int>() && (r.v->v == (x.i < 0 ? (int)(0u - (unsigned)x.i) : x.i) || x.i == INT32_MIN), W);
    return;
  case BITAND: case MIN: case MAX: case LEN_: nsym_check(r.is_err(E::e_bad_argument), B); return;
  case CHR: if (x.fl) { nsym_check(r.is_err(E::e_bad_argument), B); return; }
    { char c = (char)x.i; if (c) nsym_check(r.is_str(&c, 1), W); else nsym_check(r.is_str("", 0), W); } return;
  default: break;
  }
  nsym_check(r.ok && r.v->is_a<val_type_float>(), W); if (!r.ok) return; float g = r.v->f;
  switch (k) {
  case SQRT: nsym_check(f < 0 ? g != g : g == sqrtf(f), W); break;
  case SIN: nsym_check(near(g, sinf(f)), W); break;
  case COS: nsym_check(near(g, cosf(f)), W); break;
  case TAN: nsym_check(near(g, tanf(f)), W); break;
  case ROUND: nsym_check(g == roundf(f), W); break;
  case CEIL: nsym_check(g == ceilf(f), W); break;
  case FLOOR: nsym_check(g == floorf(f), W); break;
  }
}
//@ entry c20_unary args=0,4-12 args1=0-4
// rounding against its definition rather than the library
extern "C" void c20_rounding() {
  int k = nsym_arg(0); float f = anyfloat("x"); nsym_assume(f > -4194304.f); nsym_assume(f < 4194304.f); if (k == 3) nsym_assume(f >= 0);
  static const char *n[] = {"floor", "ceil", "round", "sqrt"}; std::string s = std::string("function m(a)\n return ") + n[k] + "(a)\nend\n"; world w; MUST_COMPILE(w, s);
  vm_t vm(w.prog); vm.call_init(); hval h[1]; h_float(h[0], f); result r = run(vm, "m", 1, h); nsym_check(r.ok && r.v->is_a<val_type_float>(), W); if (!r.ok) return;
  float g = r.v->f; 
  if (k == 3) { nsym_check(g >= 0 && (double)g * g <= (double)f * 1.000001 && (double)g * g >= (double)f * 0.999999, W); return; }
  int t = (int)f; float tf = (float)t, d = f - tf; int want = t;    // toward zero, and what is left
  if (k == 0) want = d < 0 ? t - 1 : t; else if (k == 1) want = d > 0 ? t + 1 : t; else want = d >= 0.5f ? t + 1 : d <= -0.5f ? t - 1 : t;
  nsym_check(g == (float)want, W);
}
//@ entry c20_rounding args=0-2
extern "C" void c20_binary() {
  int k = nsym_arg(0), form = nsym_arg(1); num x = anynum("x"), y = anynum("y");
  std::string s = std::string("function m(a, b)\n") + wrap(form, tab[k].n, "a, b") + "end\n"; world w; MUST_COMPILE(w, s);
  vm_t vm(w.prog); vm.call_init(); hval h[2]; put(h[0], x); put(h[1], y); result r = run(vm, "m", 2, h);
  if (k == BITAND) { if (x.fl || y.fl) nsym_check(r.is_err(E::e_bad_argument), B); else nsym_check(r.is_int(x.i & y.i), W); return; }
  nsym_check(r.ok && r.v->is_a<val_type_float>(), W); if (!r.ok) return;
  float a = x.asf(), b = y.asf(), g = r.v->f; nsym_check(k == MIN ? g == (a < b ? a : b) : g == (a > b ? a : b), W);
}
//@ entry c20_binary args=1-3 args1=0-4
// every type in every argument position
static const char *arg_text[] = {"none", "a", "f", "\"text\"", "[a, 2, 3]", "g", "len", "\"\"", "abs", "new_array(4)"};
enum { T_NONE, T_INT, T_FLT, T_STR, T_ARR, T_FUN, T_SYS, T_EMPTY, T_SYS2, T_ARR4, NT };
extern "C" void c20_types() {
  int k = nsym_arg(0), form = nsym_choose("form", FORMS), n = tab[k].args, t0 = nsym_choose("t0", NT), t1 = n == 2 ? nsym_choose("t1", NT) : 0;
  std::string a = arg_text[t0]; if (n == 2) a += std::string(", ") + arg_text[t1];
  int i = nsym_int("i"); float f = anyfloat("f"); nsym_assume(f > 0.5f); nsym_assume(f < 300.f); if (k == WAIT || k == NEWARR) { nsym_assume(i > -5); nsym_assume(i <= 4); nsym_assume(f < 6.f); }
  std::string s = "function g(q)\n return q\nend\nfunction m(a, f)\n t(1)\n" + wrap(form, tab[k].n, a) + " t(2)\nend\n";
  world w; w.add("t", 1, host_t); MUST_COMPILE(w, s); host_prog() = &w.prog; host_trace().clear();
  vm_t vm(w.prog); vm.call_init(); hval h[2]; h_int(h[0], i); h_float(h[1], f); result r = run(vm, "m", 2, h);
  auto isn = [](int t) { return t == T_INT || t == T_FLT; };
  bool ok; switch (k) {
  case BITAND: ok = t0 == T_INT && t1 == T_INT; break;
  case MIN: case MAX: ok = isn(t0) && isn(t1); break;
  case LEN_: ok = t0 == T_STR || t0 == T_ARR || t0 == T_EMPTY || t0 == T_ARR4; break;
  case CHR: ok = t0 == T_INT; break;
  case NEWARR: ok = (t0 == T_INT && i > 0) || (t0 == T_FLT && f >= 1.f); break;
  default: ok = isn(t0); }
  nsym_check(host_trace().size() == 1, "an error ends the thread at once");
  if (!ok) { nsym_check(r.is_err(E::e_bad_argument), B); return; }
  nsym_check(r.ok, W); if (!r.ok) return;
  if (k == LEN_) nsym_check(r.is_int(t0 == T_STR ? 4 : t0 == T_ARR ? 3 : t0 == T_ARR4 ? 4 : 0), W);
  if (k == WAIT) nsym_check(r.is_int(0), W);
  if (k == NEWARR) { int c = t0 == T_INT ? i : (int)f; nsym_check(r.v->is_a<val_type_array>() && r.v->array_size() == c, W); if (r.v->is_a<val_type_array>()) for (int j = 0; j < r.v->array_size(); j++) nsym_check(r.v->array()[j]->is_a<val_type_none>(), W); }
}
//@ entry c20_types args=0-14
// sizes of new arrays
extern "C" void c20_new_array() {
  int i = nsym_int("n"); int cap = nsym_arg(0); if (cap >= 0) { nsym_assume(i >= cap); nsym_assume(i <= cap + 1); } else { nsym_assume((i <= 0) | (i > 2000000)); }
  std::string s = "function m(a)\n var x = new_array(a)\n var y = new_array(1)\n y[0] = 5\n if (len(x) == a)\n  x[a - 1] = x\n  return x\n end\n return 0\nend\n"; world w; MUST_COMPILE(w, s);
  vm_t vm(w.prog); vm.call_init(); hval h[1]; h_int(h[0], i); result r = run(vm, "m", 1, h);
  if (i <= 0) { nsym_check(r.is_err(E::e_bad_argument), B); return; }
  if (i > 2000000) { nsym_check(r.is_err(E::e_out_of_memory), W); return; }
  nsym_check(r.ok && r.v->is_a<val_type_array>() && r.v->array_size() == i, W); if (!r.ok) return;
  int n = nsym_conc(i); for (int j = 0; j < n; j++) nsym_check(j == n - 1 ? r.v->array()[j] == r.v : r.v->array()[j]->is_a<val_type_none>(), "every element of a new array is none");
}
//@ entry c20_new_array args=-1,1,7,63,127,255,511,4095
extern "C" void c20_len() {
  int n = nsym_arg(0), kind = nsym_choose("kind", 3); std::string s; 
  if (kind == 0) { s = "function m()\n return len(\"" + std::string(n, 'x') + "\")\nend\n"; }
  else if (kind == 1) { s = "function m()\n return len([1"; for (int i = 1; i < n; i++) s += ",2"; s += "])\nend\n"; if (n == 0) return; }
  else { s = "function m()\n var s = \"\"\n var i\n for (i = 0 to " + std::to_string(n) + ")\n  s += chr(65)\n end\n return len(s)\nend\n"; }
  world w; MUST_COMPILE(w, s); vm_t vm(w.prog); vm.call_init(); result r = run(vm, "m"); nsym_check(r.is_int(n), W);
}
//@ entry c20_len args=0,1,2,127,128,255,256,300 steps=300000000
// strings of any characters, built by chr
extern "C" void c20_chr() {
  int n = nsym_arg(0); std::string s = "function m(a, b, c)\n return "; static const char *v[] = {"a", "b", "c"}; for (int i = 0; i < n; i++) s += std::string(i ? " + " : "") + "chr(" + v[i] + ")"; s += "\nend\nfunction l(a, b, c)\n return len(m(a, b, c))\nend\n";
  world w; MUST_COMPILE(w, s); vm_t vm(w.prog); vm.call_init(); hval h[3]; std::string want; for (int i = 0; i < 3; i++) { int c = nsym_int("c"); h_int(h[i], c); if (i < n && (c & 255)) want += (char)c; }
  result r = run(vm, "m", 3, h); nsym_check(r.is_str(want.c_str(), (int)want.size()), W); r = run(vm, "l", 3, h); nsym_check(r.is_int((int)want.size()), W);
}
//@ entry c20_chr args=1-3
// numbers of arguments the compiler accepts
extern "C" void c20_count() {
  int k = nsym_arg(0), n = nsym_choose("n", 5); std::string a; for (int i = 0; i < n; i++) a += i ? ", 1" : "1"; std::string s = std::string("function m()\n return ") + tab[k].n + "(" + a + ")\nend\n";
  world w; bool ok = w.compile(s); nsym_out(ok); nsym_check(ok == (tab[k].args < 0 || tab[k].args == n), "a built-in takes its documented number of arguments");
}
//@ entry c20_count args=0-15
// new_thread and wait
extern "C" void c20_new_thread() {
  int t0 = nsym_choose("t0", NT), n = nsym_choose("n", 5), p = nsym_choose("params", 3), i = nsym_int("i"); static const char *par[] = {"", "u", "u, v"};
  std::string a = n ? arg_text[t0] : ""; for (int j = 1; j < n; j++) a += std::string(", ") + (j == 1 ? "a" : "\"z\"");
  std::string s = std::string("var seen\nfunction g(") + par[p] + ")\n seen = " + (p == 0 ? "1" : p == 1 ? "[u]" : "[u, v]") + "\n t(3)\nend\nfunction m(a, f)\n var fg = g\n t(1)\n var r = new_thread(" + a + ")\n t(2)\n return r\nend\n";
  world w; w.add("t", 1, host_t); MUST_COMPILE(w, s); host_prog() = &w.prog; host_trace().clear(); vm_t vm(w.prog); vm.call_init(); hval h[2]; h_int(h[0], i); h_float(h[1], 1.5f);
  result r = run(vm, "m", 2, h); bool ok = n == p + 1 && t0 == T_FUN;
  if (!ok) { nsym_check(r.is_err(E::e_bad_argument), B); nsym_check(host_trace().size() == 1, "an error ends the thread at once"); return; }
  nsym_check(r.is_int(0), W); nsym_check(host_trace().size() == 2, W);
  for (int k = 0; k < 6; k++) vm.resume(50);
  nsym_check(host_trace().size() == 3 && vm.finished() && !vm.has_error(), W);
  const value_t *g = vm.globals()[0];
  if (p == 0) nsym_check(g && g->is_a<val_type_int>() && g->v == 1, W);
  else { nsym_check(g && g->is_a<val_type_array>() && g->array_size() == p && g->array()[0]->is_a<val_type_int>() && g->array()[0]->v == i, W); if (p == 2 && g->is_a<val_type_array>()) nsym_check(g->array()[1]->is_a<val_type_string>() && !strcmp(g->array()[1]->string(), "z"), W); }
}
//@ entry c20_new_thread
// a started function receives every argument, however many, in order
extern "C" void c20_thread_args() {
  int n = nsym_arg(0), form = nsym_choose("form", 3), a = nsym_int("a"); std::string s = "var seen\nfunction g(", c;
  for (int i = 0; i < n; i++) { s += (i ? ", p" : "p") + std::to_string(i); c += ", a + " + std::to_string(i * 3); }
  s += ")\n seen = ["; for (int i = 0; i < n; i++) s += (i ? ", p" : "p") + std::to_string(i);
  s += "]\nend\nfunction m(a)\n var h = [a]\n"; std::string call = "new_thread(g" + c + ")";
  if (form == 0) s += " " + call + "\n return h[0]\n"; else if (form == 1) s += " return a - " + call + "\n"; else s += " var q = new_thread\n var r = [a, q(g" + c + ")]\n return r[0] + r[1]\n";
  s += "end\n"; world w; MUST_COMPILE(w, s); vm_t vm(w.prog); vm.call_init(); hval h[1]; h_int(h[0], a); result r = run(vm, "m", 1, h); nsym_check(r.is_int(a), W);
  for (int k = 0; k < 6; k++) vm.resume(400);
  nsym_check(vm.finished() && !vm.has_error(), W); const value_t *g = vm.globals()[0];
  nsym_check(g && g->is_a<val_type_array>() && g->array_size() == n, W); if (!g || !g->is_a<val_type_array>() || g->array_size() != n) return;
  for (int i = 0; i < n; i++) nsym_check(g->array()[i]->is_a<val_type_int>() && g->array()[i]->v == (int)((unsigned)a + i * 3u), "a started function receives its arguments in order");
}
//@ entry c20_thread_args args=1-20,31-33,63-65,127-129,254-257
// combined with pending operands, in initialisers, nested
extern "C" void c20_nested() {
  int k = nsym_arg(0), a = nsym_int("a"), b = nsym_int("b"); std::string s;
  switch (k) {
  case 0: s = "function m(a, b)\n return a - abs(b) * 3 + bitand(a, abs(bitand(b, 255)))\nend\n"; break;
  case 1: s = "function m(a, b)\n var x = [a, b, a]\n return len(x) * 10 + len(\"ab\" + chr(bitand(a, 127) + 1) + \"c\") + b\nend\n"; break;
  case 2: s = "var g = abs(5 - 12)\nvar h = [len(\"abc\"), bitand(12, 10)]\nfunction m(a, b)\n return g * 100 + h[0] * 10 + h[1] + a\nend\n"; break;
  case 3: s = "function id(x)\n return x\nend\nfunction m(a, b)\n return id(abs(id(a))) - id(bitand(id(b), id(a)))\nend\n"; break;
  case 4: s = "function m(a, b)\n var x = new_array(3)\n x[len(x) - 1] = [bitand(a, b)]\n x[bitand(1, 3)] = abs(a)\n return x[1] + x[2][0] + len(x)\nend\n"; break;
  case 5: s = "function m(a, b)\n var f = abs\n var h = [bitand, f]\n var q = h[1]\n var z = h[0]\n return q(a) + z(a, b) + f(b)\nend\n"; break;
  }
  auto ab = [](int v) { return v < 0 ? (int)(0u - (unsigned)v) : v; }; auto U = [](int v) { return (unsigned)v; }; int want;
  nsym_assume(a != INT32_MIN); nsym_assume(b != INT32_MIN);
  switch (k) {
  case 0: want = (int)(U(a) - U(ab(b)) * 3u + U(a & ab(b & 255))); break;
  case 1: want = (int)(34u + U(b)); break;
  case 2: want = (int)(738u + U(a)); break;
  case 3: want = (int)(U(ab(a)) - U(a & b)); break;
  case 4: want = (int)(U(ab(a)) + U(a & b) + 3u); break;
  default: want = (int)(U(ab(a)) + U(a & b) + U(ab(b))); break;
  }
  world w; MUST_COMPILE(w, s); vm_t vm(w.prog); nsym_check(vm.call_init(), W); hval h[2]; h_int(h[0], a); h_int(h[1], b); result r = run(vm, "m", 2, h); nsym_check(r.is_int(want), N);
}
//@ entry c20_nested args=0-5
//@ bounds all 32-bit integers and all non-NaN floats for every numeric argument; every built-in with each of 10 values of the seven types in each argument position, written 5 ways; new_array sizes <= 0, around 1, 8, 64, 128, 256, 512, 4096, > 2000000; strings and arrays up to 300; 0 to 4 arguments, new_thread with up to 257
//@ outside NaN arguments; abs of the smallest integer; new_array and wait of floats beyond 300; the last digit of sin, cos and tan, which are uninterpreted here
