// C04: precedence and grouping
#include "ref.hpp"
using namespace ref;
static const char *OPS[] = {"+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "and", "or"};
static int level(const std::string &o) {
  if (o == "and" || o == "or") return 1;
  if (o == "*" || o == "/" || o == "%") return 5;
  if (o == "+" || o == "-") return 4;
  return 3;
}
// A flat expression: items are "(", ")", "-", "not", an operator, or an operand
// (upper case placeholder index into atoms).  Grouped here as the statement
// says, independently of the implementation.
struct Flat {
  struct tok { std::string s; Node *n; };
  std::vector<tok> v; size_t i = 0;
  void op(const std::string &s) { v.push_back({s, nullptr}); }
  void at(Node *n) { v.push_back({"", n}); }
  Node *parse(int min) {
    Node *l = prefix(min);
    while (i < v.size() && !v[i].n && v[i].s != ")" && level(v[i].s) >= min) {
      std::string o = v[i].s; i++;
      Node *r = parse(level(o) + 1);
      l = bin(o, l, r);
    }
    return l;
  }
  Node *prefix(int min) {
    if (v[i].n) return v[i++].n;
    if (v[i].s == "-") { i++; return neg(prefix(9)); }
    if (v[i].s == "not") { i++; return lnot(parse(2)); }   // all that binds tighter than not
    i++; Node *e = parse(1); i++; return e;                // ( e )
  }
  std::string text() {
    Printer q;
    for (auto &t : v) { if (!q.o.empty()) q.o += ' '; if (t.n) q.ex(t.n); else q.o += t.s; }
    return q.o;
  }
};
static void decide(Flat &f, int where, bool opt = true, const int *fixed = nullptr) {
  std::string flat = f.text();
  Node *tree = f.parse(1);
  Prog p; p.fuel = 8000; p.global("g", lit(0));
  p.fn("f", {"x"}, block({ret(bin("-", var("x"), lit(3)))}));
  Node *body = where == 1 ? block({if_(tree, block({ret(lit(1))})), ret(lit(0))}) : where == 2 ? block({tr(tree), ret(lit(4))}) : where == 3 ? block({decl("r", arr({lit(5), lit(6)})), seta("r", lit(1), tree), ret(idx(var("r"), lit(1)))}) : where == 4 ? block({decl("z", tree), ret(var("z"))}) : block({ret(tree)});
  p.fn("main", {"a", "b", "c", "d"}, body);
  Interp I(p); I.init();
  std::vector<Val> args;
  static const char *N[] = {"a", "b", "c", "d"};
  for (int k = 0; k < 4; k++) args.push_back(Val::Int(fixed ? fixed[k] : nsym_int(N[k])));
  Val want = I.run("main", args);
  std::string e = where == 1 ? " if (" + flat + ")\n  return 1\n end\n return 0\n" : where == 2 ? " t(" + flat + ")\n return 4\n" : where == 3 ? " var r = [5,6]\n r[1] = " + flat + "\n return r[1]\n" : where == 4 ? " var z = " + flat + "\n return z\n" : " return " + flat + "\n";
  std::string src = "var g = 0\nfunction f(x)\n return x - 3\nend\nfunction main(a,b,c,d)\n" + e + "end\n";
  nsym_note(flat.c_str());
  Out o; std::string msg;
  if (!real(src, "main", args, o, opt, &msg)) {
    // a constant division by zero is always evaluated, so it would fail anyway
    if (opt && msg == "constant divide by zero") { nsym_check(I.bad(), "only a constant division by zero is rejected"); return; }
    nsym_note(msg.c_str()); nsym_check(0, "a valid expression is accepted"); return; }
  nsym_check(o.ok == !I.bad(), "an expression means what its parenthesised form means");
  if (I.bad()) nsym_check(o.err == I.err, "an expression means what its parenthesised form means");
  else nsym_check(same(o.v, want), "an expression means what its parenthesised form means");
  nsym_check(o.trace.size() == I.trace.size(), "an expression means what its parenthesised form means");
  for (size_t k = 0; k < o.trace.size() && k < I.trace.size(); k++) nsym_check(same(o.trace[k], I.trace[k]), "operands are evaluated from left to right");
}
static void prefix(Flat &f, int k) {
  switch (k) {
  case 1: f.op("-"); break;
  case 2: f.op("not"); break;
  case 3: f.op("-"); f.op("-"); break;
  case 4: f.op("not"); f.op("-"); break;
  case 5: f.op("not"); f.op("not"); break;
  }
}
static Node *atom(int k) { static const char *N[] = {"a", "b", "c", "d"}; return var(N[k]); }

// two operators, every prefix
extern "C" void c04_three() {
  int o1 = nsym_arg(0), o2 = nsym_choose("o2", 12);
  Flat f;
  prefix(f, nsym_choose("p0", 6)); f.at(atom(0)); f.op(OPS[o1]);
  prefix(f, nsym_choose("p1", 3)); f.at(atom(1)); f.op(OPS[o2]);
  prefix(f, nsym_choose("p2", 3)); f.at(atom(2));
  decide(f, 0);
}
//@ entry c04_three args=0-11 time=150

// three operators
extern "C" void c04_four() {
  int o1 = nsym_arg(0), o2 = nsym_choose("o2", 12), o3 = nsym_choose("o3", 12);
  Flat f; f.at(atom(0)); f.op(OPS[o1]); f.at(atom(1)); f.op(OPS[o2]); f.at(atom(2)); f.op(OPS[o3]); f.at(atom(3));
  decide(f, 0);
}
//@ entry c04_four args=0-11 time=150

// parentheses in every place
extern "C" void c04_paren() {
  int o1 = nsym_arg(0), sh = nsym_choose("sh", 7);
  static const int REP[] = {0, 1, 2, 4, 5, 9, 10, 11};
  int o2 = REP[nsym_choose("o2", 8)], o3 = REP[nsym_choose("o3", 8)], pf = nsym_choose("pf", 3);
  // ranges of operands put in parentheses
  static const int L[7][2][2] = {{{0, 1}, {-1, -1}}, {{1, 2}, {-1, -1}}, {{2, 3}, {-1, -1}}, {{0, 2}, {-1, -1}}, {{1, 3}, {-1, -1}}, {{0, 1}, {2, 3}}, {{1, 3}, {2, 3}}};
  Flat f; const int ops[3] = {o1, o2, o3};
  for (int k = 0; k < 4; k++) {
    for (int q = 0; q < 2; q++) if (L[sh][q][0] == k) { if (q == 0) prefix(f, pf); f.op("("); }
    f.at(atom(k));
    for (int q = 0; q < 2; q++) if (L[sh][q][1] == k) f.op(")");
    if (k < 3) f.op(OPS[ops[k]]);
  }
  decide(f, 0);
}
//@ entry c04_paren args=0-11 time=150

// calls, subscripts, literals and members as operands bind tightest
extern "C" void c04_atoms() {
  int o1 = nsym_arg(0);
  static const int REP[] = {1, 2, 3, 5, 9, 10};
  int o2 = REP[nsym_choose("o2", 6)], k = nsym_choose("k", 5), pos = nsym_choose("pos", 3), pf = nsym_choose("pf", 3);
  Flat f;
  for (int q = 0; q < 3; q++) {
    if (q == pos) {
      prefix(f, pf);
      f.at(k == 0 ? call("f", {bin("+", atom(3), lit(2))}) : k == 1 ? idx(arr({atom(0), atom(3)}), lit(1)) : k == 2 ? lit(6) : k == 3 ? idx(arr({atom(3)}), bin("-", lit(1), lit(1))) : calle(idx(arr({var("f"), lit(1)}), lit(0)), {atom(3)}));
    } else f.at(atom(q));
    if (q < 2) f.op(OPS[q == 0 ? o1 : o2]);
  }
  decide(f, 0);
}
//@ entry c04_atoms args=0-11 time=150

// evaluation order of operands and arguments, in every position of an expression
extern "C" void c04_order() {
  static const int REP[] = {1, 2, 5, 9, 10, 11};
  int o1 = REP[nsym_arg(0)], o2 = REP[nsym_choose("o2", 6)], o3 = REP[nsym_choose("o3", 6)], par = nsym_choose("par", 3);
  Flat f;
  if (par == 1) f.op("(");
  f.at(call("t", {atom(0)})); f.op(OPS[o1]);
  if (par == 2) f.op("(");
  f.at(call("t", {atom(1)}));
  if (par == 1) f.op(")");
  f.op(OPS[o2]);
  f.at(call("t", {call("f", {call("t", {atom(2)})})}));
  if (par == 2) f.op(")");
  f.op(OPS[o3]); f.at(call("t", {atom(3)}));
  decide(f, 0);
}
//@ entry c04_order args=0-5 time=150

// the place of the expression does not matter: condition, argument, element, declaration; with and without the optimiser
extern "C" void c04_where() {
  int where = nsym_arg(0), opt = nsym_choose("opt", 2);
  static const int REP[] = {0, 1, 2, 4, 5, 9, 10, 11};
  int o1 = REP[nsym_choose("o1", 8)], o2 = REP[nsym_choose("o2", 8)];
  Flat f; prefix(f, nsym_choose("p0", 3)); f.at(atom(0)); f.op(OPS[o1]); prefix(f, nsym_choose("p1", 3)); f.at(atom(1)); f.op(OPS[o2]); f.at(atom(2));
  decide(f, where, opt != 0);
}
//@ entry c04_where args=1-4 time=150

// literals mixed in: what the optimiser folds must respect the grouping too
extern "C" void c04_lit() {
  int o1 = nsym_arg(0), o2 = nsym_choose("o2", 12), m = nsym_choose("m", 7) + 1, pf = nsym_choose("pf", 3);
  Flat f;
  static const int V[] = {7, 3, 2};
  for (int q = 0; q < 3; q++) {
    if (q == 1) prefix(f, pf);
    f.at(m >> q & 1 ? lit(V[q]) : atom(q));
    if (q < 2) f.op(OPS[q == 0 ? o1 : o2]);
  }
  decide(f, 0);
}
//@ entry c04_lit args=0-11 time=150

// longer chains: up to 7 operands over one representative of each level
extern "C" void c04_long() {
  static const int REP[] = {1, 2, 5, 10};
  int n = 6, o[6]; int rest = nsym_arg(0);
  o[0] = REP[rest % 4]; o[1] = REP[rest / 4 % 4];
  for (int k = 2; k < n - 1; k++) o[k] = REP[nsym_choose("o", 4)];
  Flat f;
  for (int k = 0; k < n; k++) { f.at(atom(k % 4)); if (k < n - 1) f.op(OPS[o[k]]); }
  decide(f, 0);
}
//@ entry c04_long args=0-15 time=150
// the compound assignments take the whole expression to their right
extern "C" void c04_comp() {
  int c = nsym_arg(0), o1 = nsym_choose("o1", 12), o2 = nsym_choose("o2", 12);
  static const char *C[] = {"+", "-", "*", "/"};
  Flat f; f.at(atom(1)); f.op(OPS[o1]); f.at(atom(2)); f.op(OPS[o2]); f.at(atom(3));
  std::string flat = f.text();
  Node *tree = f.parse(1);
  Prog p; p.fn("main", {"a", "b", "c", "d"}, block({comp("a", C[c], tree), ret(var("a"))}));
  Interp I(p); I.init();
  std::vector<Val> args; for (auto n : {"a", "b", "c", "d"}) args.push_back(Val::Int(nsym_int(n)));
  Val want = I.run("main", args);
  std::string src = std::string("function main(a,b,c,d)\n a ") + C[c] + "= " + flat + "\n return a\nend\n";
  Out o; if (!real(src, "main", args, o)) { nsym_check(0, "a valid expression is accepted"); return; }
  nsym_check(o.ok == !I.bad() && (I.bad() ? o.err == I.err : same(o.v, want)), "a compound assignment takes the whole right-hand expression");
}
//@ entry c04_comp args=0-3 time=150
// expressions of n operands: every operator in turn, parentheses opened and closed anywhere
extern "C" void c04_size() {
  int n = nsym_arg(0), mode = nsym_choose("mode", 6), seed = nsym_choose("seed", n > 60 ? 2 : 6);
  static const int AR[] = {0, 1, 2}, ALL[] = {1, 2, 5, 10, 0, 9, 11, 2, 1, 7, 2, 0, 6, 10};
  Flat f; int open = 0; unsigned r = 12345u + 977u * seed + 31u * mode; auto rnd = [&](int m) { r = r * 1103515245u + 12345u; return (int)((r >> 16) % m); };
  for (int k = 0; k < n; k++) {
    if (mode == 1 && k < n - 1) { f.op("("); open++; }                              // a o (b o (c ...
    if (mode == 2 && k == 0) for (int j = 0; j < n - 1; j++) f.op("(");              // ((a o b) o c) ...
    if (mode >= 4 && rnd(4) == 0) { f.op("("); open++; }
    if (mode == 5 && rnd(5) == 0) f.op("-");
    f.at(k % 5 == 4 ? lit(k % 7 + 1) : atom((k + seed) % 4));
    if (mode == 2 && k > 0) f.op(")");
    while (mode >= 4 && open > 0 && rnd(3) == 0) { f.op(")"); open--; }
    if (k < n - 1) f.op(OPS[mode == 3 || mode == 5 ? ALL[rnd(14)] : AR[rnd(3)]]);
  }
  while (open-- > 0) f.op(")");
  static const int FIX[3][4] = {{5, -3, 2, 0}, {-1, 7, 0, 4}, {1000003, 11, -70001, 1}};
  bool all = mode == 3 || mode == 5;   // conditions on long products are beyond the solver: some values
  decide(f, 0, nsym_choose("opt", 2) != 0, all && n > 7 ? FIX[nsym_choose("fix", 3)] : nullptr);
}
//@ entry c04_size args=5,7,8,9,12,16,17,24,33,64,65,129,257 time=100 steps=400000000
//@ bounds two operators: all 144 pairs with 6x3x3 prefixes; three operators: all 1728; parentheses: 7 placements; 6 operands over one operator of each level; all integer values of the variables
//@ bounds 5 to 257 operands in six layouts (flat, nested left, nested right, random groups) of all operators but / and %, two to six sequences each, arithmetic for all values, mixed ones of more than 7 at three value tuples
//@ outside every sequence of more than six operands; 'not' directly after unary minus (rejected by the parser)
