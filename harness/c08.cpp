// C08: variables
#include "ref.hpp"
#include "mix.hpp"
#include <functional>
using namespace ref;
static const char *M = "a variable yields the value last assigned to it and to nothing else";
static int uid;
static std::string N_(const char *p, int k) { return p + std::to_string(k); }
typedef std::vector<std::string> names;
static std::string fresh(const names &in) { // smallest name not in scope: siblings reuse names
  for (int k = 0;; k++) { std::string s = "v" + std::to_string(k); bool used = false; for (auto &n : in) if (n == s) used = true; if (!used) return s; }
}
static Node *value() { return bin("+", var("a"), lit(100 * ++uid)); }
static void show(std::vector<Node *> &out, const names &in) { for (auto &n : in) out.push_back(tr(var(n))); }
// len more statements in a block that sees the names `in`
static Node *gen(names in, int len, int depth) {
  std::vector<Node *> s;
  while (len-- > 0) {
    switch (nsym_choose("op", depth > 0 ? 7 : 4)) {
    case 0: { std::string n = fresh(in); s.push_back(decl(n, value())); in.push_back(n); } break;
    case 1: { std::string n = fresh(in); s.push_back(decl(n)); in.push_back(n); } break;
    case 2: s.push_back(set(in.back(), value())); break;
    case 3: s.push_back(set(in[in.size() / 2], value())); break;
    case 4: { Node *x = gen(in, len, depth - 1); Node *y = gen(in, 1, 0); s.push_back(if_(var("c"), x, y)); len -= 1; } break;
    case 5: { std::string n = fresh(in); s.push_back(decl(n, lit(0))); in.push_back(n); names q = in; Node *x = gen(q, len, depth - 1); s.push_back(while_(bin("<", var(n), lit(2)), block({comp(n, "+", lit(1)), x}))); len -= 1; } break;
    case 6: { std::string n = fresh(in); s.push_back(decl(n)); in.push_back(n); Node *x = gen(in, len, depth - 1); s.push_back(for_(n, lit(0), lit(2), x)); len -= 1; } break;
    }
    show(s, in);
  }
  return block(s);
}
extern "C" void c08_gen() {
  uid = 0; int first = nsym_arg(0), len = nsym_tier() ? 4 : 3;
  names in{"ga", "a", "b"};
  std::vector<Node *> s;
  switch (first) {
  case 0: break;
  case 1: s.push_back(decl("v0", value())); in.push_back("v0"); break;
  case 2: s.push_back(if_(var("c"), block({decl("v0", value()), decl("v1", value()), tr(var("v0"))}), block({decl("v0"), tr(var("v0")), decl("v1", value())}))); break;
  case 3: s.push_back(decl("v0")); in.push_back("v0"); s.push_back(while_(bin("==", var("v0"), none()), block({set("v0", value()), decl("v1"), tr(var("v1")), set("v1", value())}))); break;
  }
  s.push_back(gen(in, nsym_arg(1) == 2 && !nsym_tier() ? 2 : len, nsym_arg(1)));
  Prog p; p.global("ga", lit(5)); p.global("gb");
  p.fn("f", {"a", "b", "c"}, block(s));
  p.fn("main", {"a", "b", "c"}, block({decl("m", lit(1)), do_(call("f", {var("a"), var("b"), var("c")})), tr(var("ga")), tr(var("gb")), tr(var("a")), tr(var("m")), do_(call("f", {lit(3), lit(4), var("c")})), ret(var("m"))}));
  int a = nsym_int("a"), b = nsym_int("b"), c = nsym_int("c");
  agree(p, "main", {Val::Int(a), Val::Int(b), Val::Int(c)}, M);
}
//@ entry c08_gen args=0-3 args1=1-2
// activations of one function are apart
extern "C" void c08_rec() {
  int at = nsym_arg(0), k = nsym_choose("k", 4); uid = 0;
  std::vector<Node *> s{decl("x", value()), decl("y"), set("y", value()), if_(var("c"), block({decl("z", value()), tr(var("z")), set("z", var("n"))}), block({decl("z"), tr(var("z")), decl("w", value()), tr(var("w"))})), decl("u"), tr(var("u")), set("u", bin("+", var("n"), lit(1)))};
  Node *rec = k == 0 ? if_(bin(">", var("n"), lit(0)), block({do_(call("f", {bin("+", var("a"), lit(1)), bin("-", var("n"), lit(1)), lnot(var("c"))}))}))
            : k == 1 ? if_(bin(">", var("n"), lit(0)), block({decl("r", call("f", {var("n"), bin("-", var("n"), lit(1)), var("c")})), tr(var("r"))}))
            : k == 2 ? if_(bin(">", var("n"), lit(0)), block({decl("q", var("f")), decl("r", calle(var("q"), {var("a"), bin("-", var("n"), lit(1)), var("c")})), set("a", var("r"))}))
                     : while_(bin(">", var("n"), lit(0)), block({comp("n", "-", lit(1)), decl("o"), tr(var("o")), set("o", call("f", {var("a"), bin("-", var("n"), lit(1)), var("c")}))}));
  s.insert(s.begin() + at, rec);
  names in{"x", "y", "u", "a", "n", "c", "g"};
  show(s, in); s.push_back(set("g", bin("+", var("g"), lit(1)))); s.push_back(ret(bin("+", var("x"), var("u"))));
  Prog p; p.global("g", lit(0)); p.fn("f", {"a", "n", "c"}, block(s));
  p.fn("main", {"a", "n", "c"}, block({ret(call("f", {var("a"), var("n"), var("c")}))}));
  int a = nsym_int("a"), n = nsym_range("n", 0, 2), c = nsym_int("c");
  agree(p, "main", {Val::Int(a), Val::Int(n), Val::Int(c)}, "activations of one function have their own variables");
}
//@ entry c08_rec args=0-7
// assignments of values of any type between variables of any kind, in any order
extern "C" void c08_kinds() {
  int order = nsym_arg(0); uid = 0;
  static const char *V[] = {"g0", "g1", "a", "b", "x", "y"};
  Prog p; p.global("g0", str("zero")); p.global("g1");
  std::vector<Node *> s{decl("x", flt("1.5")), decl("y")};
  for (int k = 0; k < (nsym_tier() ? 3 : 2); k++) {
    int d = k == 0 ? order : nsym_choose("d", 6), e = nsym_choose("e", 6);
    s.push_back(set(V[d], e == d ? call("t", {str("new")}) : var(V[e])));
  }
  for (auto v : V) s.push_back(tr(var(v)));
  s.push_back(do_(call("h")));
  for (auto v : V) s.push_back(tr(var(v)));
  p.fn("h", {}, block({decl("x", var("g0")), set("g0", var("g1")), set("g1", var("x"))}));
  p.fn("main", {"a", "b"}, block(s));
  int a = nsym_int("a");
  agree(p, "main", {Val::Int(a), Val::Str("bee")}, M);
}
//@ entry c08_kinds args=0-5
// globals live as long as the machine, and are shared by functions and host calls
extern "C" void c08_life() {
  int k = nsym_arg(0);
  std::string s = "var g = 10\nvar h\nfunction set(x)\n g = x\n return 1\nend\nfunction get()\n return g\nend\nfunction add(x)\n var l\n if (l == none)\n  g += x\n end\n l = x\n return l\nend\nfunction seth(x)\n h = x\nend\nfunction geth()\n return h\nend\n";
  world w; MUST_COMPILE(w, s);
  vm_t vm(w.prog); nsym_check(vm.call_init(), "globals are initialised");
  int g = 10, h = 0; bool hset = false;
  for (int i = 0; i < k; i++) {
    int x = nsym_int("x"); hval a; h_int(a, x);
    switch (nsym_choose("op", 5)) {
    case 0: run(vm, "set", 1, &a); g = x; break;
    case 1: { result r = run(vm, "get"); nsym_check(r.is_int(g), "a global keeps its value between calls"); } break;
    case 2: { result r = run(vm, "add", 1, &a); nsym_check(r.is_int(x), "a local"); g = (int)((unsigned)g + (unsigned)x); } break;
    case 3: run(vm, "seth", 1, &a); h = x; hset = true; break;
    case 4: { result r = run(vm, "geth"); nsym_check(hset ? r.is_int(h) : r.is_none(), "a global without value is none until assigned"); } break;
    }
  }
  result r = run(vm, "get"); nsym_check(r.is_int(g), "a global keeps its value between calls");
  r = run(vm, "geth"); nsym_check(hset ? r.is_int(h) : r.is_none(), "a global without value is none until assigned");
}
//@ entry c08_life args=1-4
// a declaration without value is none each time it is reached
extern "C" void c08_none() {
  int k = nsym_arg(0); Prog p; int a = nsym_int("a"), n = nsym_range("n", 0, 3);
  Node *D = decl("l"), *T = tr(var("l")), *S = set("l", var("a"));
  Node *b = nullptr;
  switch (k) {
  case 0: b = block({decl("i", lit(0)), while_(bin("<", var("i"), var("n")), block({D, T, S, T, comp("i", "+", lit(1))}))}); break;
  case 1: b = block({decl("i"), for_("i", lit(0), var("n"), block({D, T, S, T}))}); break;
  case 2: b = block({if_(var("a"), block({decl("q", lit(9)), tr(var("q"))})), D, T, S, T}); break;
  case 3: b = block({if_(var("a"), block({decl("q", lit(9)), tr(var("q"))}), block({D, T, S})), decl("z"), tr(var("z"))}); break;
  case 4: b = block({decl("i", lit(0)), while_(bin("<", var("i"), var("n")), block({comp("i", "+", lit(1)), if_(bin("==", var("i"), lit(2)), block({decl("m", var("a")), tr(var("m"))}), block({D, T, S}))}))}); break;
  case 5: b = block({decl("i"), for_("i", lit(0), var("n"), block({decl("w", var("i")), decl("j"), tr(var("j")), for_("j", lit(0), lit(2), block({D, T, S})), set("w", var("j"))}))}); break;
  }
  p.fn("f", {"a", "n"}, block({b, ret(lit(1))}));
  p.fn("main", {"a", "n"}, block({do_(call("f", {var("a"), var("n")})), do_(call("f", {lit(5), var("n")})), ret(lit(2))}));
  agree(p, "main", {Val::Int(a), Val::Int(n)}, "a local declared without value is none each time", nsym_choose("opt", 2) != 0);
}
//@ entry c08_none args=0-5
// the same name in different functions and blocks, and a global declared after a function's local of that name
extern "C" void c08_names() {
  int k = nsym_arg(0), a = nsym_int("a"); Prog p;
  bool last = false;
  switch (k) {
  case 0: p.fn("f", {"x"}, block({decl("y", var("x")), set("x", lit(1)), tr(var("y")), ret(var("x"))})); p.fn("main", {"a"}, block({decl("x", var("a")), decl("y", call("f", {var("x")})), tr(var("y")), ret(var("x"))})); break;
  case 1: p.global("s", lit(4)); last = true; p.fn("f", {"a"}, block({decl("s", var("a")), tr(var("s")), set("s", lit(2)), ret(var("s"))})); p.fn("main", {"a"}, block({tr(call("f", {var("a")})), ret(call("g"))})); p.fn("g", {}, block({ret(call("f", {lit(8)}))})); break;
  case 2: p.fn("main", {"a"}, block({if_(var("a"), block({decl("x", lit(1)), tr(var("x"))}), block({decl("x", lit(2)), tr(var("x"))})), decl("x", lit(3)), while_(bin("<", var("x"), lit(5)), block({decl("z", var("x")), tr(var("z")), comp("x", "+", lit(1))})), decl("z", lit(6)), tr(var("z")), ret(var("x"))})); break;
  case 3: p.global("ab", lit(1)); p.global("a_b", lit(2)); p.global("abc", lit(3)); p.fn("main", {"b"}, block({decl("a", lit(4)), decl("_b", lit(5)), decl("Ab", lit(6)), decl("ab_", lit(7)), set("abc", var("b")), tr(var("ab")), tr(var("a_b")), tr(var("abc")), tr(var("a")), tr(var("_b")), tr(var("Ab")), ret(var("ab_"))})); break;
  case 4: { std::string l1(70, 'x'), l2 = l1; l2[69] = 'y'; p.global(l1, lit(1)); p.global(l2, lit(2)); std::string l3 = l1 + "z"; p.fn("main", {"a"}, block({decl(l3, var("a")), set(l2, var(l3)), tr(var(l1)), tr(var(l2)), ret(var(l3))})); } break;
  }
  agree(p, "main", {Val::Int(a)}, "equal names in different places and similar names in one place are different variables", true, last);
}
//@ entry c08_names args=0-4
// many variables
extern "C" void c08_many() {
  int kind = nsym_arg(0), n = kind == 3 ? 120 : 300, a = nsym_int("a"), j0[] = {0, 1, 2, 63, 64, 100, 118, 119, 127, 128, 200, 254, 255, 256, 257, 298, 299}, i = nsym_tier() ? nsym_range("i", 0, n - 1) : j0[nsym_choose("i", kind == 3 ? 8 : 17)]; i = nsym_conc(i);
  std::string s; auto V = [](int k) { return "v" + std::to_string(k); };
  if (kind == 0) { for (int k = 0; k < n; k++) s += "var " + V(k) + (k % 3 ? " = " + std::to_string(k) : "") + "\n"; s += "function main(a)\n " + V(i) + " = a\n"; }
  if (kind == 1) { s = "function main(a)\n"; for (int k = 0; k < n; k++) s += " var " + V(k) + (k % 3 ? " = " + std::to_string(k) : "") + "\n"; s += " " + V(i) + " = a\n"; }
  if (kind == 2) { s = "function main(a)\n var x = 1\n"; for (int k = 0; k < n; k++) { s += " if (1)\n  var " + V(k) + " = a\n  x += " + V(k) + "\n end\n"; } s += " var " + V(i) + " = a\n"; }
  if (kind == 3) { s = "function f("; for (int k = 0; k < n; k++) s += (k ? "," : "") + V(k); s += ")\n"; }
  int j[5] = {i, (i + 1) % n, (i + n - 1) % n, 255 % n, 256 % n};
  if (kind == 2) { s += " return x + " + V(i) + "\nend\n"; }
  else {
    if (kind == 3) s += " " + V(i) + " = " + V(0) + " + 7\n";
    s += " return ["; for (int k = 0; k < 5; k++) s += (k ? "," : "") + V(j[k]); s += "]\nend\n";
    if (kind == 3) { s += "function main(a)\n return f("; for (int k = 0; k < n; k++) s += (k ? ", a + " : "a + ") + std::to_string(k); s += ")\nend\n"; }
  }
  world w; MUST_COMPILE(w, s);
  vm_t vm(w.prog); vm.call_init();
  hval h; h_int(h, a); result r = run(vm, "main", 1, &h);
  if (kind == 2) { nsym_check(r.is_int((int)(1u + (unsigned)a * (n + 1))), "many blocks"); return; }
  nsym_check(r.ok && r.v->is_a<val_type_array>() && r.v->array_size() == 5, "many variables");
  for (int k = 0; k < 5; k++) {
    value_t *e = r.v->array()[k];
    if (j[k] == i) nsym_check(e->is_a<val_type_int>() && e->v == (int)((unsigned)a + (kind == 3 ? 7u : 0u)), "many variables");
    else if (kind == 3) nsym_check(e->is_a<val_type_int>() && e->v == (int)((unsigned)a + j[k]), "many variables");
    else if (j[k] % 3) nsym_check(e->is_a<val_type_int>() && e->v == j[k], "many variables");
    else nsym_check(e->is_a<val_type_none>(), "many variables");
  }
}
//@ entry c08_many args=0-3 steps=1000000000
// every kind of variable takes and keeps values of every form
extern "C" void c08_mix() {
  int pos = nsym_arg(0), k = nsym_choose("k", NFORM), t = nsym_choose("t", 5);
  Node *e = t == 0 ? var("a") : t == 1 ? str("s") : t == 2 ? none() : t == 3 ? arr({lit(1), lit(2)}) : flt("1.5");
  Prog p; mix(p, pos, formv(k, e)); p.global("H", lit(77)); p.global("J");
  Node *m = const_cast<Func *>(p.find("main"))->body; m->c.insert(m->c.end() - 1, block({tr(var("H")), tr(var("J")), tr(var("G")), tr(var("x")), tr(var("b")), tr(var("i"))}));
  agree(p, "main", {Val::Int(nsym_int("a")), Val::Int(nsym_int("b"))}, M);
}
//@ entry c08_mix args=0-21 time=150
// blocks nested n deep: variables declared at one depth, used at another, with a global of the same or another name
extern "C" void c08_nest() {
  int n = nsym_arg(0), d = nsym_choose("decl", n + 1), kind = nsym_choose("kind", 3), same = nsym_choose("same", 2), a = nsym_int("a");
  Prog p; p.global("v", lit(40)); p.global("g", lit(41)); std::string nm = same ? "v" : "x";
  std::function<Node *(int)> at = [&](int l) -> Node * {
    std::vector<Node *> b; b.push_back(decl(N_("d", l), bin("+", var("a"), lit(l))));
    if (l == d) b.push_back(decl(nm, bin("-", var("a"), lit(7))));
    if (l > d) { b.push_back(comp(nm, "+", lit(l))); b.push_back(tr(var(nm))); }
    if (l < n) { Node *in = at(l + 1); if (kind == 0) b.push_back(if_(lit(1), in)); else if (kind == 1) b.push_back(if_(bin("==", var("a"), var("a")), in, block({tr(lit(99))}))); else b.push_back(block({decl(N_("k", l), lit(0)), while_(bin("<", var(N_("k", l)), lit(1)), block({comp(N_("k", l), "+", lit(1)), in}))})); }
    b.push_back(tr(var(N_("d", l)))); if (l >= d) b.push_back(tr(var(nm))); b.push_back(comp("g", "+", lit(l)));
    return block(b);
  };
  p.fuel = 2000; p.fn("main", {"a"}, block({at(0), tr(var("g")), ret(call("o"))})); p.fn("o", {}, block({ret(var("v"))}));
  agree(p, "main", {Val::Int(a)}, "a name means the innermost variable of that name however deep it stands", true, true);
}
//@ entry c08_nest args=0-14 time=60
//@ bounds all sequences of 3 (thorough 4, and quick 2 with blocks nested two deep) declarations, assignments, if/else, while and for blocks after four openings, every variable in scope read after each statement, all values of the arguments; recursion of depth 2
//@ bounds sequences of up to 4 host calls on one machine; 300 globals, locals, sibling blocks and 120 parameters with one position chosen among 17 (thorough: any)
//@ bounds blocks nested 0-14 deep, a variable declared at any depth with or without a global of that name
//@ outside longer histories with symbolic shape
