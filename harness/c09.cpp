// C09: arrays
#include "ref.hpp"
#include "mix.hpp"
using namespace ref;
static const char *M = "arrays are bounds-checked, ordered and shared by reference";
static std::string S(int v) { return std::to_string(v); }
// read a[i] / store a[i] = v for all i, arrays of n elements, however the array is reached
extern "C" void c09_index() {
  int n = nsym_arg(0), store = nsym_arg(1), via = nsym_choose("via", 6), made = nsym_choose("made", 2), i = nsym_int("i"), v = nsym_int("v");
  Prog p; p.global("g");
  std::vector<Node *> e; for (int k = 0; k < n; k++) e.push_back(bin("+", var("v"), lit(10 * k)));
  Node *a = made ? call("new_array", {lit(n)}) : arr(e);
  std::vector<Node *> s{decl("a", a), set("g", var("a")), decl("b", arr({lit(0), var("a")})), decl("c", lit(0))};
  std::string nm = via == 1 ? "g" : via == 2 ? "c" : "a";
  if (via == 2) s.push_back(set("c", var("a")));
  Node *acc = via == 3 ? idx(var("b"), lit(1)) : via == 4 ? call("same", {var("a")}) : var(nm);
  if (store) {
    if (via == 3) { s.push_back(decl("d", idx(var("b"), lit(1)))); nm = "d"; }
    if (via == 4) s.push_back(do_(call("put", {var("a"), var("i"), bin("+", var("v"), lit(1))})));
    else if (via == 5) s.push_back(seta("a", bin("-", bin("+", var("i"), lit(1)), lit(1)), call("t", {var("v")})));
    else s.push_back(seta(nm, var("i"), bin("+", var("v"), lit(1))));
    for (int k = 0; k < n; k++) { s.push_back(tr(idx(var("a"), lit(k)))); s.push_back(tr(idx(var("g"), lit(k)))); }
    s.push_back(ret(len("a")));
  } else if (via == 5) s.push_back(ret(idx(var("a"), idx(arr({var("i"), lit(5)}), lit(0)))));
  else s.push_back(ret(idx(acc, var("i"))));
  p.fn("same", {"x"}, block({ret(var("x"))}));
  p.fn("put", {"x", "i", "v"}, block({seta("x", var("i"), var("v")), ret()}));
  p.fn("main", {"i", "v"}, block(s));
  agree(p, "main", {Val::Int(i), Val::Int(v)}, M);
}
//@ entry c09_index args=1,2,3,5 args1=0-1
// every type as the thing indexed and as the index
static Node *thing(int t) {
  switch (t) {
  case 0: return var("i"); case 1: return flt("1.0"); case 2: return str("str"); case 3: return none(); case 4: return arr({lit(4), lit(5), lit(6)});
  case 5: return var("f"); case 6: return var("len"); case 7: return str(""); case 8: return flt("0.5"); case 9: return bin("-", flt("0.0"), flt("1.0"));
  case 10: return neg(lit(1)); case 11: return lit(2147483647); case 12: return lit((int)0x80000000);
  }
  return nullptr;
}
extern "C" void c09_types() {
  int ta = nsym_arg(0), ti = nsym_choose("ti", 13), store = nsym_choose("st", 2), i = nsym_range("i", -2, 4);
  Prog p; p.fn("f", {"x"}, block({ret(var("x"))}));
  p.fn("main", {"i"}, block({decl("a", thing(ta)), decl("j", thing(ti)), tr(lit(1)), store ? block({seta("a", var("j"), lit(9)), tr(lit(2))}) : block({tr(idx(var("a"), var("j")))}), ret(lit(3))}));
  agree(p, "main", {Val::Int(i)}, "indexing with a wrong type or by something that cannot be indexed is an error");
}
//@ entry c09_types args=0-8
// elements of every type come back as they were stored
extern "C" void c09_elems() {
  int k = nsym_arg(0), t = nsym_choose("t", 10), i = nsym_range("i", 0, 3);
  Prog p; p.fn("f", {"x"}, block({ret(bin("+", var("x"), lit(1)))}));
  Node *v = thing(t);
  std::vector<Node *> s;
  switch (k) {
  case 0: s = {decl("a", arr({lit(1), v, lit(2), v})), tr(idx(var("a"), lit(0))), tr(idx(var("a"), lit(1))), tr(idx(var("a"), lit(2))), ret(idx(var("a"), var("i")))}; break;
  case 1: s = {decl("a", call("new_array", {lit(4)})), seta("a", var("i"), v), tr(idx(var("a"), lit(0))), tr(idx(var("a"), lit(1))), tr(idx(var("a"), lit(2))), tr(idx(var("a"), lit(3))), ret(len("a"))}; break;
  case 2: s = {decl("x", v), decl("a", arr({var("x"), lit(5), var("x"), lit(6)})), set("x", lit(8)), seta("a", lit(0), lit(7)), tr(idx(var("a"), lit(0))), tr(idx(var("a"), lit(2))), ret(idx(var("a"), var("i")))}; break;
  case 3: s = {decl("a", arr({lit(1), lit(2), lit(3), lit(4)})), seta("a", var("i"), v), seta("a", lit(1), idx(var("a"), var("i"))), seta("a", lit(2), idx(var("a"), lit(1))), tr(idx(var("a"), lit(0))), tr(idx(var("a"), lit(1))), tr(idx(var("a"), lit(2))), tr(idx(var("a"), lit(3))), ret(lit(0))}; break;
  }
  p.fn("main", {"i"}, block(s));
  agree(p, "main", {Val::Int(i)}, "an element keeps the value stored in it");
}
//@ entry c09_elems args=0-3
// sharing: names, elements, parameters and results refer to the one array
extern "C" void c09_share() {
  int k = nsym_arg(0), i = nsym_range("i", -1, 2), v = nsym_int("v");
  Prog p; p.global("g");
  p.fn("set", {"x", "i", "v"}, block({seta("x", var("i"), var("v")), set("x", lit(0))}));
  p.fn("id", {"x"}, block({ret(var("x"))}));
  std::vector<Node *> s{decl("a", arr({lit(1), lit(2)})), decl("b")};
  auto A = [](Node *x, Node *y) { return idx(x, y); };
  switch (k) {
  case 0: s.push_back(set("b", var("a"))); s.push_back(seta("b", var("i"), var("v"))); break;
  case 1: s.push_back(set("b", arr({var("a"), var("a")}))); s.push_back(decl("c", A(var("b"), lit(0)))); s.push_back(seta("c", var("i"), var("v"))); s.push_back(tr(A(A(var("b"), lit(1)), var("i")))); break;
  case 2: s.push_back(do_(call("set", {var("a"), var("i"), var("v")}))); break;
  case 3: s.push_back(set("b", call("id", {var("a")}))); s.push_back(seta("a", var("i"), var("v"))); s.push_back(tr(A(var("b"), var("i")))); break;
  case 4: s.push_back(set("g", var("a"))); s.push_back(seta("g", var("i"), var("v"))); s.push_back(set("g", arr({lit(9)}))); s.push_back(seta("g", lit(0), lit(8))); break;
  case 5: s.push_back(set("b", arr({lit(1), lit(2)}))); s.push_back(seta("b", var("i"), var("v"))); s.push_back(tr(A(var("b"), var("i")))); break; // a separate array
  case 6: s.push_back(seta("a", var("i"), var("a"))); s.push_back(set("b", A(var("a"), var("i")))); s.push_back(seta("b", bin("-", lit(1), var("i")), var("v"))); break; // contains itself
  case 7: s.push_back(set("b", call("new_array", {lit(2)}))); s.push_back(seta("b", lit(1), var("a"))); s.push_back(set("a", var("b"))); s.push_back(decl("c", A(var("a"), lit(1)))); s.push_back(seta("c", var("i"), var("v"))); s.push_back(tr(A(A(var("b"), lit(1)), lit(0)))); s.push_back(tr(A(A(var("a"), lit(1)), lit(1)))); break;
  case 8: s.push_back(decl("n", lit(0))); s.push_back(while_(bin("<", var("n"), lit(3)), block({set("b", arr({var("n"), lit(0)})), seta("b", var("i"), var("v")), comp("n", "+", lit(1))}))); s.push_back(tr(A(var("b"), lit(0)))); break; // a literal makes a new array each time
  case 9: s.push_back(decl("n", lit(0))); s.push_back(set("b", call("new_array", {lit(3)}))); s.push_back(while_(bin("<", var("n"), lit(3)), block({seta("b", var("n"), arr({var("n"), lit(0)})), comp("n", "+", lit(1))}))); s.push_back(set("a", A(var("b"), lit(1)))); s.push_back(seta("a", var("i"), var("v"))); s.push_back(tr(A(A(var("b"), lit(0)), lit(0)))); s.push_back(tr(A(A(var("b"), lit(1)), lit(0)))); s.push_back(tr(A(A(var("b"), lit(2)), lit(0)))); s.push_back(tr(A(A(var("b"), lit(2)), lit(1)))); break;
  }
  s.push_back(tr(A(var("a"), lit(0)))); s.push_back(tr(A(var("a"), lit(1)))); s.push_back(tr(len("a"))); s.push_back(ret(call("len", {var("a")})));
  p.fn("main", {"i", "v"}, block(s));
  agree(p, "main", {Val::Int(i), Val::Int(v)}, "a change through one name of an array is seen through all");
}
//@ entry c09_share args=0-9
// the order in which the parts of a literal, a read and a store are evaluated does not disturb the values
extern "C" void c09_parts() {
  int k = nsym_arg(0), i = nsym_range("i", -1, 3), v = nsym_int("v");
  Prog p; p.global("g", arr({lit(1), lit(2), lit(3)}));
  p.fn("inc", {"i"}, block({seta("g", var("i"), bin("+", idx(var("g"), var("i")), lit(10))), ret(idx(var("g"), var("i")))}));
  std::vector<Node *> s;
  switch (k) {
  case 0: s = {decl("x", arr({call("inc", {var("i")}), call("inc", {var("i")}), idx(var("g"), var("i")), bin("+", var("v"), lit(1))}))}; break;
  case 1: s = {seta("g", bin("-", call("inc", {lit(0)}), lit(11)), call("inc", {lit(0)})), decl("x", var("g"))}; break;
  case 2: s = {decl("x", arr({idx(var("g"), bin("+", var("i"), lit(0))), bin("*", idx(var("g"), lit(1)), idx(var("g"), lit(2))), neg(idx(var("g"), lit(0)))}))}; break;
  case 3: s = {decl("x", arr({arr({lit(1), var("v")}), arr({arr({var("v")}), lit(3)})})), tr(idx(idx(idx(var("x"), lit(1)), lit(0)), lit(0))), tr(idx(idx(var("x"), lit(0)), lit(1))), set("x", idx(var("x"), lit(1)))}; break;
  case 4: s = {seta("g", var("i"), bin("+", idx(var("g"), var("i")), var("v"))), seta("g", idx(arr({lit(2), lit(1), lit(0)}), var("i")), lit(55)), decl("x", var("g"))}; break;
  case 5: s = {decl("x", call("new_array", {bin("+", var("i"), lit(1))})), tr(idx(var("x"), var("i"))), tr(len("x"))}; break;
  }
  s.push_back(tr(call("len", {var("x")}))); s.push_back(tr(idx(var("x"), lit(0)))); s.push_back(tr(idx(var("g"), lit(0)))); s.push_back(tr(idx(var("g"), lit(1)))); s.push_back(tr(idx(var("g"), lit(2)))); s.push_back(ret(lit(1)));
  p.fn("main", {"i", "v"}, block(s));
  agree(p, "main", {Val::Int(i), Val::Int(v)}, M, nsym_choose("opt", 2) != 0);
}
//@ entry c09_parts args=0-5
// sizes: new_array(n) for every n, long literals, far indices
extern "C" void c09_size() {
  int k = nsym_arg(0);
  if (k == 0) { // every integer as a size
    int n = nsym_int("n"), i = nsym_int("i");
    world w; MUST_COMPILE(w, "function main(n, i)\n var a = new_array(n)\n if (len(a) == n)\n  if (a.length == n)\n   return a[i] == none\n  end\n end\n return 5\nend\n");
    nsym_assume(n <= 40 || n > 200000);
    vm_t vm(w.prog); vm.call_init(); hval h[2]; h_int(h[0], n); h_int(h[1], i);
    result r = run(vm, "main", 2, h);
    if (n <= 0) nsym_check(r.is_err(thread_error_t::e_bad_argument), "a size that is not positive is an error");
    else if (n > 200000) nsym_check(r.is_err(thread_error_t::e_out_of_memory), "an array that does not fit is an error");
    else if (i >= 0 && i < n) nsym_check(r.is_int(1), "new_array(n) holds n nones");
    else nsym_check(r.is_err(thread_error_t::e_bad_array_bounds), "an index outside is an error");
    return;
  }
  int n = k == 1 ? 300 : k == 2 ? 5000 : 70000, i = nsym_int("i"), v = nsym_int("v");
  std::string s = "var g\nfunction make()\n";
  if (k == 1) { s += " g = ["; for (int j = 0; j < n; j++) s += (j ? "," : "") + S(j); s += "]\n"; }
  else s += " g = new_array(" + S(n) + ")\n";
  s += "end\nfunction put(i, v)\n g[i] = v\n return g[i]\nend\nfunction get(i)\n return g[i]\nend\nfunction size()\n return g.length\nend\n";
  world w; MUST_COMPILE(w, s);
  vm_t vm(w.prog); vm.call_init(); run(vm, "make");
  result z = run(vm, "size"); nsym_check(z.is_int(n), "the length of a long array");
  hval h[2]; h_int(h[1], v);
  static const int at[] = {0, 1, 127, 128, 255, 256, 257, 299, 300, 4999, 5000, 32767, 32768, 65535, 65536, 69999, 70000, 131072, -1, (int)0x80000000, 0x40000000, 0x20000000, (int)0x80000001};
  int q = at[nsym_choose("at", 23)], q2 = nsym_choose("at2", 2) ? 0 : n - 1;
  h_int(h[0], q);
  result r = run(vm, "put", 2, h);
  bool in = q >= 0 && q < n;
  if (in) nsym_check(r.is_int(v), "a far element is stored and read"); else nsym_check(r.is_err(thread_error_t::e_bad_array_bounds), "an index outside a long array is an error");
  if (q2 != q) { h_int(h[0], q2); r = run(vm, "get", 1, h); nsym_check(k == 1 ? r.is_int(q2) : r.is_none(), "a store changes no other element"); }
  (void)i;
}
//@ entry c09_size args=0-3 steps=1000000000
// far elements by an index written in the program
extern "C" void c09_literal() {
  static const int L[] = {3, 130, 257, 300, 1000, 33000, 70000}; int n = L[nsym_arg(0)], v = nsym_int("v"), form = nsym_choose("form", 4); static const int at[] = {0, 1, 126, 127, 128, 129, 255, 256, 257, 258, 299, 511, 512, 999, 32767, 32768, 65535, 65536, 69999}; int k = nsym_choose("at", 23), q = k < 19 ? at[k] : k == 19 ? n - 1 : k == 20 ? n : k == 21 ? n + 1 : n / 2; bool in = q < n;
  std::string i = form == 0 ? S(q) : form == 1 ? "K" : form == 2 ? S(q / 2) + " + " + S(q - q / 2) : "(" + S(q) + ")", w = "const K = " + S(q) + "\nvar g\nfunction make()\n g = new_array(" + S(n) + ")\n g[0] = -1\nend\nfunction put(v)\n g[" + i + "] = v\n return g[" + i + "]\nend\nfunction loc(v)\n var a = g\n a[" + i + "] = v\n return a[" + i + "]\nend\nfunction get(i)\n return g[i]\nend\n";
  world z; MUST_COMPILE(z, w); vm_t vm(z.prog); vm.call_init(); run(vm, "make"); hval h; h_int(h, v); result r = run(vm, nsym_choose("loc", 2) ? "loc" : "put", 1, &h);
  if (!in) { nsym_check(r.is_err(thread_error_t::e_bad_array_bounds), "an index outside a long array is an error"); return; }
  nsym_check(r.is_int(v), "a far element is stored and read"); h_int(h, q); nsym_check(run(vm, "get", 1, &h).is_int(v), "a far element is stored and read");
  int near[] = {q - 1, q + 1, q & 0xff, q & 0x7f, q & 0xffff, q ^ 256, q ^ 65536, q / 2, n - 1}; for (int x : near) if (x > 0 && x < n && x != q) { h_int(h, x); nsym_check(run(vm, "get", 1, &h).is_none(), "a store changes no other element"); }
  if (q) { h_int(h, 0); nsym_check(run(vm, "get", 1, &h).is_int(-1), "a store changes no other element"); }
}
//@ entry c09_literal args=0-5 targs=0-6 steps=1000000000
// .length and len of things that have none
extern "C" void c09_len() {
  int t = nsym_arg(0), k = nsym_choose("k", 2), i = nsym_int("i");
  Prog p; p.fn("f", {"x"}, block({ret(var("x"))}));
  p.fn("main", {"i"}, block({decl("a", thing(t)), tr(lit(1)), ret(k ? len("a") : call("len", {var("a")}))}));
  agree(p, "main", {Val::Int(i)}, "len and .length give the number of elements");
}
//@ entry c09_len args=0-9
// subscripts, elements and arrays in every form
extern "C" void c09_mix() {
  int sh = nsym_arg(0), k = nsym_choose("k", NFORM), j = nsym_choose("j", NFORM), t = nsym_choose("t", 4);
  Node *a = formv(k, var("a")), *v = t == 0 ? var("b") : t == 1 ? str("s") : t == 2 ? none() : arr({lit(8)}); Node *w = j == 0 || t != 0 ? (j == 2 ? call("id", {v}) : j == 14 ? formv(14, v) : v) : formv(j, v);
  if (t && j != 0 && j != 2 && j != 14) return;
  std::vector<Node *> s{decl("r", arr({lit(4), w, lit(6)})), decl("q", var("r"))};
  switch (sh) {
  case 0: s.push_back(ret(idx(var("q"), a))); break;
  case 1: s.push_back(seta("q", a, w)); s.push_back(ret(idx(var("r"), var("a")))); break;
  case 2: s.push_back(seta("r", lit(2), w)); s.push_back(seta("q", a, lit(1))); for (int i = 0; i < 3; i++) s.push_back(tr(idx(var("r"), lit(i)))); break;
  case 3: s.push_back(ret(idx(call("id", {var("r")}), a))); break;
  case 4: s.push_back(ret(idx(arr({w, lit(2), w}), a))); break;
  case 5: s.push_back(ret(idx(idx(arr({lit(1), var("r")}), lit(1)), a))); break;
  case 6: s.push_back(decl("n", call("new_array", {lit(3)}))); s.push_back(seta("n", a, w)); for (int i = 0; i < 3; i++) s.push_back(tr(idx(var("n"), lit(i)))); s.push_back(ret(len("n"))); break;
  }
  Prog p; form_funcs(p); p.fn("main", {"a", "b"}, block(s));
  agree(p, "main", {Val::Int(nsym_int("a")), Val::Int(nsym_int("b"))}, "arrays work with every form of subscript and element");
}
//@ entry c09_mix args=0-6 time=150
// a value of any type replaces an element of any type, stored any way
extern "C" void c09_over() {
  int o = nsym_arg(0), n = nsym_choose("n", 10), how = nsym_choose("how", 4), i = nsym_range("i", 0, 2);
  Prog p; p.global("g"); p.fn("f", {"x"}, block({ret(bin("+", var("x"), lit(1)))}));
  p.fn("put", {"x", "i", "v"}, block({seta("x", var("i"), var("v")), ret()}));
  std::vector<Node *> s{decl("a", arr({thing(o), thing(o), thing(o)})), decl("b", var("a")), decl("v", thing(n)), set("g", var("a"))};
  switch (how) {
  case 0: s.push_back(seta("a", var("i"), thing(n))); break;
  case 1: s.push_back(seta("b", var("i"), var("v"))); break;
  case 2: s.push_back(do_(call("put", {var("a"), var("i"), var("v")}))); break;
  case 3: s.push_back(seta("g", var("i"), idx(arr({var("v")}), lit(0)))); s.push_back(seta("g", var("i"), var("v"))); break;
  }
  for (int k = 0; k < 3; k++) s.push_back(tr(bin("==", idx(var("a"), lit(k)), none())));
  for (int k = 0; k < 3; k++) s.push_back(tr(idx(var("a"), lit(k))));
  s.push_back(ret(len("b"))); p.fn("main", {"i"}, block(s));
  agree(p, "main", {Val::Int(i)}, "a store replaces the element whatever was there");
}
//@ entry c09_over args=0-9
// literals of n elements, one of any type at any place
extern "C" void c09_long() {
  int n = nsym_arg(0), t = nsym_choose("t", 10), w = nsym_choose("w", n < 40 ? n : 8), v = nsym_int("v"); if (n >= 40) w = w < 4 ? w : n - 1 - (w - 4);
  Prog p; p.fn("f", {"x"}, block({ret(bin("+", var("x"), lit(1)))})); std::vector<Node *> e; for (int k = 0; k < n; k++) e.push_back(k == w ? thing(t) : bin("+", var("i"), lit(k)));
  std::vector<Node *> s{decl("a", arr(e)), tr(len("a")), tr(bin("==", idx(var("a"), lit(w)), none()))}; for (int k = 0; k < n; k++) if (k < 3 || k > n - 4 || (k > w - 2 && k < w + 2)) s.push_back(tr(idx(var("a"), lit(k))));
  if (t == 4) { s.push_back(decl("b", idx(var("a"), lit(w)))); s.push_back(ret(idx(var("b"), lit(1)))); } else s.push_back(ret(lit(0)));
  p.fuel = 2000; p.fn("main", {"i"}, block(s)); agree(p, "main", {Val::Int(v)}, "a literal holds its elements in order");
}
//@ entry c09_long args=1-18,32,33,65,130 time=60
//@ bounds literals and new_array of 1,2,3,5 elements with any 32-bit index and value, reached through 6 kinds of reference; lengths to 70000 at 23 boundary indices; every integer as a size (41..200000 excluded)
//@ bounds all pairs of 9 indexed and 13 index values for reading and storing; 10 sharing patterns including cycles
//@ bounds every pair of 10 old and 10 new element values stored four ways; literals of 1-18, 32, 33, 65 and 130 elements with one of any type at any place; index, array and element in 15 syntactic forms
//@ bounds arrays of 3 to 33000 (thorough 70000) elements stored into and read by a written index at 23 places in four forms, any value
//@ outside arrays of symbolic length above 40
