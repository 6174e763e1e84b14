// C23: constants and global initialisers
#include "ref.hpp"
#include "ctx.hpp"
using namespace ref;
static const char *CV = "a constant is its value written out", *CE = "a constant expression evaluates as at run time", *GI = "globals are initialised once, in order, before anything else", *GV = "a global starts with the value of its initialiser";
static Node *V(const char *n) { return var(n); }
// ---- a constant against its value ----------------------------------------------------------------
static std::string literal(int kind) {
  std::string s; auto D = [&](const char *n) { char c = (char)nsym_u8(n); nsym_assume((c >= '0') & (c <= '9')); s += c; };
  switch (kind) {
  case 0: D("d"); D("e"); break;  case 1: s = "21474836"; D("d"); D("e"); break;  case 2: s = "\""; for (int i = 0; i < 3; i++) { char c = (char)nsym_u8("c"); nsym_assume((c >= ' ') & (c <= '~') & (c != '"')); s += c; } s += "\""; break;
  case 3: s = "\"\""; break;  case 4: { static const char *f[] = {"2.5", "0.0", "0.1", "16777216.0", "3.0"}; s = f[nsym_choose("f", 5)]; } break;  case 5: s = "none"; break;  case 6: s = "\"" + std::string(300, 'q') + "\""; break; case 7: s = "42949672"; D("d"); D("e"); break; case 8: s = "1"; break;
  }
  return s;
}
static const char *places[] = {
  "return K", "return K + a", "return a + K", "return K == a", "return [K, K, a][1]", "return id(K)", "return not K", "if (K)\n  return 1\n else\n  return 2\n end", "var x = 0\n while (x < K)\n  x += 1\n  if (x == 3)\n   return x\n  end\n end\n return x", "var x\n for (x = 0 to K)\n  if (x == 2)\n   return x\n  end\n end\n return x",
  "var x = [5, 6, 7]\n x[K] = 9\n return x[0]", "var x = K\n x = K\n return x", "var x = \"p\"\n x += K\n return x", "t(K)\n return t(K) ", "return K and a", "return a or K", "return -K", "return K * K - K", "return [1, 2, 3][K]", "return K(1)", "return K[0]", "return len(K)", "return id(id(K) + K)", "var x = [K]\n x[0] = 3\n return K", "return gk", "return gl[0]", "return (K)", "return K < a", "return a % K"};
extern "C" void c23_value() {
  int kind = nsym_arg(0), pl = nsym_choose("place", 29), late = nsym_choose("late", 2), opt = nsym_choose("opt", 2); std::string v = literal(kind), P = places[pl]; Val A = Val::Int(nsym_int("a"));
  auto prog = [&](const std::string &k, bool decl) { std::string b; for (size_t i = 0; i < P.size(); i++) { bool word = P[i] == 'K' && (i == 0 || !isalpha(P[i - 1])); b += word ? k : std::string(1, P[i]); } std::string d = decl ? "const K = " + v + "\n" : "", g = "var gk = " + k + "\nvar gl = [" + k + "]\n"; return (late ? "" : d) + g + "function id(p)\n return p\nend\nfunction main(a)\n " + b + "\nend\n" + (late ? d : ""); };
  std::string s1 = prog("K", true), s2 = prog(v, false); nsym_note(s1.c_str()); Out o1, o2; bool c1 = real(s1, "main", {A}, o1, opt), c2 = real(s2, "main", {A}, o2, opt);
  if (!c2) return;                    // the value itself cannot stand there
  nsym_check(c1, CV); if (!c1) return;
  nsym_check(o1.init_ok && o2.init_ok && o1.ok == o2.ok && o1.err == o2.err && o1.trace.size() == o2.trace.size(), CV); if (o1.ok && o2.ok) nsym_check(same(o1.v, o2.v), CV); for (size_t i = 0; i < o1.trace.size() && i < o2.trace.size(); i++) nsym_check(same(o1.trace[i], o2.trace[i]), CV);
}
//@ entry c23_value args=0-8
// ---- constant expressions ---------------------------------------------------------------------------
static const char *ops[] = {"+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "and", "or"};
extern "C" void c23_expr() {
  int o1 = nsym_arg(0), o2 = nsym_choose("op", 12), form = nsym_choose("form", 6), big = nsym_choose("big", 4), names = nsym_choose("names", 3); std::string l[3]; unsigned val[3]; if (!nsym_tier()) { nsym_assume(!big || (!names && form < 2)); nsym_assume(names < 2 || form % 2 == 0); }
  for (int i = 0; i < 3; i++) { char c = (char)nsym_u8("d"); nsym_assume((c >= '0') & (c <= '9')); unsigned d = c - '0'; if (big == i + 1) { static const char *pre[] = {"214748364", "429496729", "65535"}; l[i] = pre[i]; val[i] = (i == 0 ? 214748364u : i == 1 ? 429496729u : 65535u) * 10 + d; nsym_assume(i != 1 || d <= 5); } else val[i] = d; l[i] += c; }
  auto ex = [&](const std::string &a, const std::string &b, const std::string &c) { std::string p = ops[o1], q = ops[o2]; switch (form) { case 0: return a + " " + p + " " + b + " " + q + " " + c; case 1: return a + " " + p + " (" + b + " " + q + " " + c + ")"; case 2: return "(" + a + " " + p + " " + b + ") " + q + " " + c; case 3: return "-" + a + " " + p + " " + b + " " + q + " -" + c; case 4: return "not (" + a + " " + p + " " + b + ") " + q + " " + c; default: return a + " " + p + " -(" + b + " " + q + " not " + c + ")"; } };
  std::string d, k = ex(l[0], l[1], l[2]), s; if (names) { d = "const A = " + l[0] + "\nconst B = " + l[1] + "\nconst C = " + l[2] + "\n"; k = ex("A", "B", "C"); }
  s = (names == 1 ? d : "") + "const K = " + k + "\nvar G = " + k + "\n" + (names == 2 ? d : "") + "function kk()\n return K\nend\nfunction gg()\n return G\nend\nfunction rr(a, b, c)\n return " + ex("a", "b", "c") + "\nend\n"; nsym_note(s.c_str());
  world ref_; MUST_COMPILE(ref_, "function rr(a, b, c)\n return " + ex("a", "b", "c") + "\nend\n"); vm_t rv(ref_.prog); rv.call_init(); hval h[3]; for (int i = 0; i < 3; i++) h_int(h[i], (int)val[i]); result want = run(rv, "rr", 3, h);
  world w; w.builtins = false; bool ok = w.compile(s, nsym_arg(1)); nsym_out(ok);
  if (!want.ok) { nsym_check(want.err == thread_error_t::e_bad_divide_by_zero, CE); nsym_check(!ok, "a constant division by zero is refused"); return; }
  nsym_check(ok, CE); if (!ok) return; int x = want.v->v; vm_t vm(w.prog); nsym_check(vm.call_init(), GI); nsym_check(run(vm, "kk").is_int(x), CE); nsym_check(run(vm, "gg").is_int(x), GV);
}
//@ entry c23_expr args=3,4,2,0,1,5-11 args1=1 targs1=0,1
// chains of constants in any order of declaration
extern "C" void c23_chain() {
  char c[2]; for (auto &x : c) { x = (char)nsym_u8("d"); nsym_assume((x >= '0') & (x <= '9')); } int a = c[0] - '0', b = c[1] - '0', perm = nsym_choose("perm", 24), kind = nsym_choose("kind", 3);
  std::string L[4]; L[0] = std::string("const A = ") + c[0] + "\n"; L[1] = std::string("const B = A * 10 + ") + c[1] + "\n"; L[2] = "const C = -(B + A)\n"; L[3] = "const D = C\n"; if (kind == 1) L[3] = "var D = C\n"; if (kind == 2) { L[3] = "const D = B\n"; }
  std::vector<int> left = {0, 1, 2, 3}; std::string s; int p = perm; for (int n = 4; n > 0; n--) { int i = p % n; p /= n; s += L[left[i]]; left.erase(left.begin() + i); if (n == 3) s += "function f()\n return [A, B, C, D]\nend\n"; }
  nsym_note(s.c_str()); world w; w.builtins = false; bool ok = w.compile(s, nsym_choose("opt", 2)); nsym_out(ok); nsym_check(ok, CE); if (!ok) return; vm_t vm(w.prog); vm.call_init(); result r = run(vm, "f"); nsym_check(r.ok && r.v->is_a<val_type_array>() && r.v->array_size() == 4, CE); if (!r.ok) return; value_t **v = r.v->array(); int B = a * 10 + b, C = -(B + a);
  nsym_check(v[0]->v == a && v[1]->v == B && v[2]->v == C && v[3]->v == (kind == 2 ? B : C), CE);
}
//@ entry c23_chain
// constants of every kind handed on, whatever the order
extern "C" void c23_alias() {
  int kind = nsym_arg(0), order = nsym_choose("order", 6); std::string v = literal(kind), L[3] = {"const A = " + v + "\n", "const B = A\n", "const C = B\n"}, s; static const int o[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; for (int i : o[order]) s += L[i];
  s += "function f()\n return C\nend\n"; Out o1, o2; bool c1 = real(s, "f", {}, o1), c2 = real("function f()\n return " + v + "\nend\n", "f", {}, o2); nsym_check(c1 && c2, CV); if (!c1 || !c2) return; nsym_check(o1.ok && o2.ok && same(o1.v, o2.v), CV);
}
//@ entry c23_alias args=0-8
// ---- globals --------------------------------------------------------------------------------------------
extern "C" void c23_globals() {
  int k = nsym_arg(0); bool last = nsym_choose("last", 2), opt = nsym_choose("opt", 2); Prog p; auto L = [](int v) { return lit(v); }; auto T = [](Node *e) { return call("t", {e}); }; int c1 = nsym_choose("c", 4); const char *gn[] = {"g0", "g1", "g2", "g3"};
  switch (k) {
  case 0: for (int i = 0; i < 4; i++) p.global(gn[i], i == c1 ? nullptr : T(L(i + 5))); break;
  case 1: p.global("g0", T(V("g3"))); p.global("g1", T(L(1))); p.global("g2", bin("+", T(L(2)), V(gn[c1 == 2 ? 1 : 1]))); p.global("g3", T(V("g2"))); break;
  case 2: p.fn("mk", {"x"}, block({set(gn[c1], V("x")), ret(bin("+", V("x"), L(100)))})); p.global("g0", call("mk", {L(1)})); p.global("g1", call("mk", {L(2)})); p.global("g2", L(7)); p.global("g3", call("mk", {L(3)})); break;
  case 3: p.global("g0", arr({L(1), str("two"), flt("3.5")})); p.global("g1", V("g0")); p.global("g2", arr({V("g0"), V("g1"), none()})); p.global("g3", idx(V("g0"), L(c1 % 3))); break;
  case 4: p.global("g0", V("main")); p.global("g1", none()); p.global("g2", V("len")); p.global("g3", call("g2", {str("abcd")})); break;
  case 5: p.global("g0", neg(L(5))); p.global("g1", lnot(L(0))); p.global("g2", bin("and", L(1), L(c1))); p.global("g3", bin("%", neg(L(7)), L(3))); break;
  case 6: p.global("g0", flt("0.5")); p.global("g1", bin("+", str("a"), L(c1))); p.global("g2", neg(flt("2.25"))); p.global("g3", bin("+", V("g0"), V("g2"))); break;
  case 7: p.konst("K", L(c1)); p.global("g0", V("K")); p.global("g1", bin("*", V("K"), L(3))); p.global("g2", arr({V("K"), bin("+", V("K"), L(1))})); p.global("g3", idx(V("g2"), L(1))); break;
  case 8: p.fn("loop", {"n"}, block({decl("i"), decl("s", L(0)), for_("i", L(0), V("n"), block({comp("s", "+", V("i"))})), ret(V("s"))})); p.global("g0", call("loop", {L(9)})); p.global("g1", T(call("loop", {L(c1)}))); p.global("g2", bin("-", V("g0"), V("g1"))); p.global("g3", call("len", {arr({V("g2"), L(1)})})); break;
  case 9: p.global("g0", bin("/", L(8), V("zero"))); p.global("g1", T(L(1))); p.global("g2"); p.global("g3"); p.global("zero", L(c1)); break;
  case 10: p.global("zero", L(c1)); p.global("g0", T(L(8))); p.global("g1", bin("/", T(L(9)), V("zero"))); p.global("g2", T(L(10))); p.global("g3"); break;
  }
  p.fn("main", {"a"}, block({do_(call("t", {V("g0")})), do_(call("t", {V("g1")})), do_(call("t", {V("g2")})), do_(call("t", {V("g3")})), set("g1", V("a")), ret(arr({V("g0"), V("g1")}))}));
  agree(p, "main", {Val::Int(nsym_int("a"))}, GV, opt, last);
}
//@ entry c23_globals args=0-10
// exactly once, whatever runs afterwards; machines do not share
static int inits_; static void host_init(thread_t &t, int32_t n) { (void)n; inits_++; value_t *v = t.get_stack().pop(); t.get_stack().push(v); }
extern "C" void c23_once() {
  int a = nsym_int("a"), k = nsym_choose("k", 3), b = nsym_int("b"); inits_ = 0; world w; w.add("init", 1, host_init); MUST_COMPILE(w, "var g = init(5)\nvar h = [init(g), g]\nvar u\nfunction put(x)\n g = x\n h[0] = x\n u = x\n return 0\nend\nfunction get()\n return [g, h[0], h[1], u]\nend\nfunction noop()\nend\n");
  vm_t v1(w.prog), v2(w.prog); nsym_check(v1.call_init() && inits_ == 2, GI); auto chk = [&](vm_t &v, int g, int h0, bool un, int u) { result r = run(v, "get"); nsym_check(r.ok && r.v->array_size() == 4, GI); if (!r.ok) return; value_t **e = r.v->array(); nsym_check(e[0]->v == g && e[1]->v == h0 && e[2]->v == 5 && (un ? e[3]->is_a<val_type_none>() : e[3]->is_a<val_type_int>() && e[3]->v == u), GI); };
  chk(v1, 5, 5, true, 0); hval h[1]; h_int(h[0], a); run(v1, "put", 1, h); chk(v1, a, a, false, a); nsym_check(v2.call_init() && inits_ == 4, GI); chk(v2, 5, 5, true, 0); h_int(h[0], b); run(v2, "put", 1, h); chk(v1, a, a, false, a); chk(v2, b, b, false, b);
  if (k == 1) { for (int i = 0; i < 3; i++) v1.resume(100); run(v1, "noop"); chk(v1, a, a, false, a); } if (k == 2) { v1.reset(); nsym_check(v1.call_init() && inits_ == 6, GI); chk(v1, 5, 5, true, 0); chk(v2, b, b, false, b); return; } nsym_check(inits_ == 4, GI);
}
//@ entry c23_once
// many globals and constants; a long running initialiser
extern "C" void c23_many() {
  int n = nsym_arg(0), i = nsym_choose("at", 3), a = nsym_int("a"); int k = i == 0 ? 0 : i == 1 ? n / 2 : n - 1; std::string s; for (int j = 0; j < n; j++) { s += "const K" + std::to_string(j) + " = " + std::to_string(j * 3) + "\nvar g" + std::to_string(j) + " = K" + std::to_string(n - 1 - j) + " + " + (j ? "g" + std::to_string(j - 1) : "1") + "\nvar n" + std::to_string(j) + "\n"; }
  s += "function f(a)\n n" + std::to_string(k) + " = a\n return [g" + std::to_string(k) + ", n" + std::to_string(k) + ", K" + std::to_string(k) + ", n" + std::to_string(k ? k - 1 : n - 1) + "]\nend\n"; world w; w.builtins = false; MUST_COMPILE(w, s); vm_t vm(w.prog); nsym_check(vm.call_init(), GI); hval h[1]; h_int(h[0], a); result r = run(vm, "f", 1, h); if (!r.ok) { nsym_check(0, GI); return; } int g = 1; for (int j = 0; j <= k; j++) g += (n - 1 - j) * 3; value_t **v = r.v->array(); nsym_check(v[0]->v == g && v[1]->v == a && v[2]->v == k * 3 && (n == 1 || v[3]->is_a<val_type_none>()), GV);
}
//@ entry c23_many args=1,2,60,130,300 steps=400000000
// any one of n globals, initialised with any kind of value, among others of any kind
extern "C" void c23_inits() {
  int n = nsym_arg(0), at = nsym_choose("at", n > 6 ? 6 : n), opt = nsym_choose("opt", 2), k = nsym_choose("kind", 14), fill = nsym_choose("fill", 3); if (n > 6) { int m[] = {0, 1, 4, n / 2, n - 2, n - 1}; at = m[at]; }
  auto mk = [](int q) -> Node * { switch (q) { case 0: return nullptr; case 1: return lit(0); case 2: return lit(1); case 3: return neg(lit(1)); case 4: return flt("0.0"); case 5: return flt("2.5"); case 6: return str(""); case 7: return str("s"); case 8: return none(); case 9: return arr({lit(0), lit(2)}); case 10: return V("main"); case 11: return bin("-", lit(1), lit(1)); case 12: return lnot(lit(7)); default: return V("K"); } };
  Prog p; p.konst("K", lit(0)); std::vector<Node *> b; for (int i = 0; i < n; i++) { std::string g = "g" + std::to_string(i); p.global(g, i == at ? mk(k) : fill == 0 ? lit(i + 1) : fill == 1 ? mk(i % 14) : lit(0)); if (i < 14 || i == at || i + 1 == n) b.push_back(do_(call("t", {var(g)}))); }
  b.push_back(set("g" + std::to_string(at), V("a"))); b.push_back(ret(var("g" + std::to_string(at)))); p.fn("main", {"a"}, block(b)); agree(p, "main", {Val::Int(nsym_int("a"))}, GV, opt);
}
//@ entry c23_inits args=1-6,9,17,40,70 time=60
extern "C" void c23_long_init() {
  int n = nsym_arg(0), a = nsym_int("a"); std::string s = "function sum(n)\n var i\n var s = 0\n for (i = 0 to n)\n  s += i\n  if (w)\n   wait(1)\n  end\n end\n return s\nend\nvar w = " + std::to_string(nsym_choose("wait", 2)) + "\nvar g = sum(" + std::to_string(n) + ")\nvar h = g + 1\nfunction f(a)\n return a + g + h\nend\n"; world w; MUST_COMPILE(w, s); vm_t vm(w.prog); nsym_check(vm.call_init(), GI); hval h[1]; h_int(h[0], a); unsigned g = (unsigned)n * (n - 1) / 2; nsym_check(run(vm, "f", 1, h).is_int((int)((unsigned)a + 2 * g + 1)), GI);
}
//@ entry c23_long_init args=1,10,700,3000 steps=400000000
// long chains, declared forwards, backwards, from the middle or interleaved, with the code in between
extern "C" void c23_deep() {
  int n = nsym_arg(0), order = nsym_choose("order", 4), at = nsym_choose("code", 3), opt = nsym_choose("opt", 2); char c = (char)nsym_u8("d"); nsym_assume((c >= '0') & (c <= '9')); std::vector<int> seq; 
  for (int i = 0; i < n; i++) seq.push_back(order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i + n / 2) % n : i % 2 ? n - 1 - i / 2 : i / 2);
  std::string s, f = "function f()\n return [C0, C" + std::to_string(n - 1) + ", g]\nend\n"; if (at == 0) s += f;
  for (int k = 0; k < n; k++) { int i = seq[k]; s += "const C" + std::to_string(i) + " = " + (i + 1 == n ? std::string(1, c) : "C" + std::to_string(i + 1) + (i % 3 == 2 ? " * 2 - 1" : i % 3 ? " + 1" : "")) + "\n"; if (at == 1 && k == n / 2) s += "var g = C0 + 1\n" + f; } if (at != 1) s += "var g = C0 + 1\n"; if (at == 2) s += f;
  int v = c - '0'; for (int i = n - 2; i >= 0; i--) v = i % 3 == 2 ? v * 2 - 1 : i % 3 ? v + 1 : v; nsym_note(s.c_str()); world w; w.builtins = false; bool ok = w.compile(s, opt); nsym_out(ok); nsym_check(ok, CE); if (!ok) return; vm_t vm(w.prog); nsym_check(vm.call_init(), GI); result r = run(vm, "f"); nsym_check(r.ok && r.v->is_a<val_type_array>() && r.v->array_size() == 3, CE); if (!r.ok) return; value_t **e = r.v->array(); nsym_check(e[0]->v == v && e[1]->v == c - '0' && e[2]->v == v + 1, CE);
}
//@ entry c23_deep args=1,2,3,4,5,6,9,24
// a constant in any nested position
extern "C" void c23_anywhere() {
  int o = nsym_arg(0), i = nsym_choose("inner", ctx::NEXPR), st = nsym_choose("statement", ctx::NSTMT), kind = nsym_choose("kind", 4); bool before = nsym_choose("order", 2); if (!nsym_tier()) nsym_assume(st % 6 == (o + 2 * i) % 6 && before == (o + i) % 2); static const char *val[] = {"1", "\"txt\"", "0.5", "none"};
  int vv = nsym_choose("v", 2); if (!nsym_tier()) nsym_assume(vv == (o + kind) % 2); Out r[2]; bool ok[2]; for (int k = 0; k < 2; k++) { int line; std::string s = ctx::around(ctx::fill(ctx::stmts[st], ctx::nest(o, i, k ? val[kind] : "K")), line, before, std::string("const K = ") + val[kind] + "\nfunction any(a)\n return a\nend\n"); std::string t; for (size_t p = 0; p < s.size();) { if (s.compare(p, 7, "any(v, ") == 0) { t += "id2(v, "; p += 7; } else t += s[p++]; } nsym_note(t.c_str()); ok[k] = real(t, "main", {Val::Int(vv)}, r[k], nsym_tier()); }
  nsym_check(ok[0] == ok[1], CV); if (!ok[0] || !ok[1]) return; nsym_check(r[0].ok == r[1].ok && r[0].err == r[1].err, CV); if (r[0].ok && r[1].ok) nsym_check(same(r[0].v, r[1].v), CV);
}
//@ entry c23_anywhere args=0-24
//@ bounds chains of up to 24 constants in four orders; a constant against its value in each of 25 x 25 nested expression positions of 18 statement positions; constants of 9 kinds with free digits or characters in 29 places, declared before or after; all 12 x 12 operator pairs in 6 forms over literals and named constants with all digits and values next to 2^31, 2^32 and 2^16; 24 orders of four dependent constants; 11 sets of initialisers, globals first or last; 14 kinds of initialiser at any of 1-6 (six of 9-70) globals; up to 300 globals and constants; initialisers of up to 3000 rounds
//@ outside constants of float expressions (a float constant is a plain literal)
