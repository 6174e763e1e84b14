// C17: which programs are rejected, and where
#include "ref.hpp"
#include "ctx.hpp"
#include <functional>
using namespace ref;
static const char *ACC = "a program without such a fault is accepted", *REJ = "a program with such a fault is rejected", *WH = "the error names the offending identifier and its line";
// ---- the rules, over the reference syntax tree --------------------------------------------
struct Fault { int line; std::string name; };
struct Rules {
  std::vector<Fault> F; Prog &p; std::map<std::string, int> gfn;   // functions: number of parameters
  std::map<std::string, bool> gvar;                               // globals: constant?
  std::vector<std::vector<std::string>> sc;                       // locals in scope
  std::vector<std::string> before;                                // global names declared so far
  Rules(Prog &q) : p(q) {}
  void bad(int l, const std::string &n) { F.push_back({l, n}); }
  bool local(const std::string &n) { for (auto &s : sc) for (auto &x : s) if (x == n) return true; return false; }
  bool known(const std::string &n) { return local(n) || gvar.count(n) || gfn.count(n); }
  bool isvar(const std::string &n) { return local(n) || gvar.count(n); }
  void use(const Node *n, int l) {
    if (!n) return;
    if (n->k == VAR && !known(n->s)) bad(l, n->s);
    if (n->k == LEN && !isvar(n->s)) bad(l, n->s);
    if (n->k == CALL && n->c[0]->k == VAR) { const std::string &f = n->c[0]->s; if (!isvar(f) && gfn.count(f) && gfn[f] >= 0 && gfn[f] != (int)n->c.size() - 1) bad(l, f); }
    for (auto *c : n->c) use(c, l);
  }
  void target(const std::string &n, int l) { if (!isvar(n)) bad(l, n); else if (!local(n) && gvar[n]) bad(l, n); }
  void declare(const std::string &n, int l) { if (local(n)) bad(l, n); for (auto &b : before) if (b == n) { bad(l, n); break; } if (sc.empty()) before.push_back(n); else sc.back().push_back(n); }
  void blk(Node *b) { if (!b) return; sc.emplace_back(); for (auto *s : b->c) st(s); sc.pop_back(); }
  void st(Node *n) {
    int l = n->line;
    switch (n->k) {
    case DECL: use(n->c[0], l); declare(n->s, l); break;
    case SET: use(n->c[0], l); target(n->s, l); break;
    case COMP: use(n->c[0], l); target(n->s, l); break;
    case SETA: use(n->c[0], l); use(n->c[1], l); target(n->s, l); break;
    case IF: use(n->c[0], l); blk(n->c[1]); blk(n->c[2]); break;
    case WHILE: use(n->c[0], l); blk(n->c[1]); break;
    case FOR: target(n->s, l); use(n->c[0], l); use(n->c[1], l); blk(n->c[2]); break;
    case RET: case DO: use(n->c[0], l); break;
    case BLOCK: for (auto *s : n->c) st(s); break;
    default: break;
    }
  }
  void fun(Func &f) { declare(f.name, f.line); sc.emplace_back(); for (auto &a : f.params) declare(a, f.line); for (auto *s : f.body->c) st(s); sc.pop_back(); }
  void run(bool last, std::vector<std::pair<std::string, int>> sys) {
    for (auto &s : sys) { gfn[s.first] = s.second; before.push_back(s.first); }
    for (auto &f : p.funcs) gfn[f.name] = (int)f.params.size();
    for (auto *g : p.globals) gvar[g->s] = g->i;
    auto globs = [&] { for (auto *g : p.globals) { use(g->c[0], g->line); if (g->i && !g->c[0]) bad(g->line, g->s); declare(g->s, g->line); } };
    if (!last) globs();
    for (auto &f : p.funcs) fun(f);
    if (last) globs();
  }
};
static void judge(Prog &p, bool last, bool opt) {
  std::string src = text(p, last); nsym_note(src.c_str());
  world w; w.builtins = false; w.add("t", 1, host_t); w.add("len", 1, nullptr); w.add("any", -1, nullptr);
  Rules R(p); R.run(last, {{"t", 1}, {"len", 1}, {"any", -1}});
  bool ok = w.compile(src, opt); nsym_out(ok);
  if (R.F.empty()) { if (!ok) nsym_note(w.err.error.c_str()); nsym_check(ok, ACC); return; }
  nsym_check(!ok, REJ); if (ok) return;
  bool hit = false; for (auto &f : R.F) hit |= w.err.line.file == 0 && w.err.line.line == f.line && w.err.error.find("'" + f.name + "'") != std::string::npos;
  if (!hit) { nsym_note(w.err.error.c_str()); nsym_note(std::to_string(w.err.line.line).c_str()); }
  nsym_check(hit, WH);
}
// ---- names in every place ------------------------------------------------------------------
static const char *names[] = {"x", "y", "len", "z"};
static std::string S(int n = 3) { return names[nsym_choose("name", n)]; }
extern "C" void c17_names() {
  int k = nsym_arg(0); bool last = nsym_arg(1); Prog p; auto L = [](int v) { return lit(v); };
  switch (k) {
  case 0: p.global(S(), L(1)); p.fn("f", {S()}, block({decl(S(), var(S())), ret(var(S()))})); break;
  case 1: p.fn("f", {"a"}, block({decl(S()), if_(var("a"), block({decl(S()), set(S(), L(1))}), block({decl(S())})), ret(var(S()))})); break;
  case 2: p.global("g"); p.fn("f", {"a"}, block({while_(var("a"), block({decl(S()), decl(S(), var(S()))})), decl(S()), ret(var("g"))})); break;
  case 3: p.fn("f", {S(), "a"}, block({decl(S()), for_(S(), L(0), var("a"), block({decl(S(), var(S()))}))})); break;
  case 4: p.fn("f", {S()}, block({decl(S())})); p.fn("g", {S()}, block({decl(S()), ret(var(S()))})); break;
  case 5: p.global(S()); p.fn(S(), {"a"}, block({do_(call(S(), {L(1)})), ret(call(S(), {L(2)}))})); break;
  case 6: p.global("g", L(0)); p.fn("f", {S()}, block({set(S(), L(1)), seta(S(), L(0), L(1)), comp(S(), "+", L(1)), ret(len(S()))})); break;
  case 7: p.global(S(), L(1)); p.global(S(), var(S())); p.fn("f", {}, block({ret(var(S()))})); break;
  case 8: p.konst(S(), L(1)); p.fn(S(), {S()}, block({set(S(), L(2)), ret(var(S()))})); break;
  case 9: p.konst("K", L(2)); p.fn("f", {S()}, block({if_(var("K"), block({if_(var(S()), block({decl(S())})), decl(S())})), decl(S(), bin("+", var("K"), L(1)))})); break;
  case 10: p.fn(S(), {}, block({ret(L(1))})); p.fn(S(), {"p"}, block({decl("q", call(S()))})); p.global(S()); break;
  case 11: p.global("g", arr({L(1), var(S())})); p.fn("y", {"a"}, block({decl("l", arr({var(S()), var("l2")})), ret()})); p.global("l2"); break;
  case 12: p.fn("f", {"a", "b"}, block({if_(var("a"), block({decl("x", L(1)), tr(var(S()))})), while_(var("b"), block({decl("y", L(1)), tr(var(S()))})), tr(var(S()))})); break;
  case 13: p.fn("f", {S(), S(), S()}, block({ret(bin("+", var(S()), L(1)))})); break;
  }
  judge(p, last, nsym_arg(2));
}
//@ entry c17_names args=0-13 args1=0,1 args2=1 targs2=0,1
// any single letters at all, left symbolic
extern "C" void c17_letters() {
  int k = nsym_arg(0); char c[3]; for (auto &x : c) { x = (char)nsym_u8("n"); nsym_assume(((x >= 'a') & (x <= 'z')) | ((x >= 'A') & (x <= 'Z')) | (x == '_')); nsym_assume((x != 'f') & (x != 'm') & (x != 'p')); }
  std::string A(1, c[0]), B(1, c[1]), C(1, c[2]), s; bool valid; int line = 0; int ab = c[0] == c[1], ac = c[0] == c[2], bc = c[1] == c[2];
  switch (k) {
  case 0: s = "function f(" + A + ")\n var " + B + " = 1\n return " + C + "\nend\n"; valid = !ab & (ac | bc); line = ab ? 2 : 3; break;
  case 1: s = "var " + A + "\nfunction m()\n " + B + " = 1\n return " + C + "\nend\n"; valid = ab & ac; line = ab ? 4 : 3; break;
  case 2: s = "function f()\n if (1)\n  var " + A + "\n else\n  var " + B + "\n end\n return " + C + "\nend\nfunction " + C + "(" + A + ")\nend\n"; valid = !ac; line = -1; break;
  case 3: s = "const " + A + " = 4\nfunction m(" + B + ")\n " + C + " = 1\nend\n"; valid = !ab & bc; line = ab ? 2 : 3; break;
  default: s = "function " + A + "(p)\nend\nfunction m()\n " + B + "(1)\n return " + C + "\nend\n"; valid = ab & ac; line = ab ? 5 : 4; break;
  }
  world w; w.builtins = false; bool ok = w.compile(s); nsym_out(ok);
  nsym_check(ok == valid, ok ? REJ : ACC);
  if (!ok && line > 0) { bool two = (k == 0 && !(ac | bc)) || (k == 1 && !ac) || (k == 3) || (k == 4); nsym_check(w.err.line.line == line || two, WH); }
}
//@ entry c17_letters args=0-4
// ---- numbers of arguments -----------------------------------------------------------------------
extern "C" void c17_args() {
  int form = nsym_arg(0), sys = nsym_arg(1), n = nsym_choose("params", 5), m = nsym_choose("given", 6);
  std::string a, q, s; for (int i = 0; i < m; i++) { if (i) a += ", "; a += "v"; } for (int i = 0; i < n; i++) { if (i) q += ", "; q += std::string("p") + char('0' + i); }
  std::string c = "fun(" + a + ")", def = "function fun(" + q + ")\n return 1\nend\n"; if (sys) def = "";
  std::string head = "function main(v)\n var x = [1]\n", tail = "\n return 2\nend\n", st; int line = 3;
  switch (form) {
  case 0: st = " " + c; break;  case 1: st = " x = 1 + " + c; break;  case 2: st = " return " + c; break;  case 3: st = " if (" + c + ")\n end"; break;
  case 4: st = " while (" + c + ")\n end"; break;  case 5: st = " for (x = 0 to " + c + ")\n end"; break;  case 6: st = " x[" + c + "] = 0"; break;  case 7: st = " x = [0, " + c + "]"; break;
  case 8: st = " x = other(" + c + ")"; break;  case 9: st = " if (v)\n  if (v)\n   var y = -" + c + "\n  end\n end"; line = 5; break;  case 10: st = " if (v)\n  v = 1\n else\n  v = not " + c + "\n end"; line = 6; break;
  case 11: st = " x[0] = " + c; break;  case 12: st = " x += " + c; break;  case 13: st = " return x[" + c + "]"; break;
  case 14: st = ""; head = "var g = " + [&] { std::string o = "fun("; for (int i = 0; i < m; i++) { if (i) o += ", "; o += "7"; } return o + ")"; }() + "\n" + head; line = 1; break;
  case 15: st = " if (0)\n  " + c + "\n end"; line = 4; break;   // dead code too
  case 16: st = " var fp = fun\n fp(" + a + ")"; break;
  }
  bool first = form != 14 && nsym_choose("order", 2); std::string oth = "function other(z)\nend\n"; s = first ? def + oth + head + st + tail : head + st + tail + def + oth;
  if (first) line += (sys ? 0 : 3) + 2;
  world w; w.builtins = false; if (sys) w.add("fun", sys == 2 ? -1 : n, nullptr);
  bool valid = n == m || sys == 2 || form == 16, ok = w.compile(s, nsym_choose("opt", 2)); nsym_out(ok);
  if (valid) { nsym_check(ok, ACC); return; }
  nsym_check(!ok, REJ); if (ok) return;
  nsym_check(w.err.line.file == 0 && w.err.line.line == line && w.err.error.find("'fun'") != std::string::npos, WH);
}
//@ entry c17_args args=0-16 args1=0,1,2
// a local variable or parameter named like a function declared later is not that function
extern "C" void c17_args_shadow() {
  int m = nsym_choose("given", 4); std::string a; for (int i = 0; i < m; i++) { if (i) a += ", "; a += "1"; }
  std::string s = "function main(f)\n return f(" + a + ")\nend\nfunction f(p, q)\nend\n"; world w; w.builtins = false;
  nsym_check(w.compile(s), ACC);
}
//@ entry c17_args_shadow
// ---- constants ------------------------------------------------------------------------------------
extern "C" void c17_const() {
  int k = nsym_arg(0), place = nsym_choose("place", 4); static const char *st[] = {"K = 1", "K += 1", "K -= 1", "K *= 2", "K /= 2", "K[0] = 1", "K.m = 1", "for (K = 0 to 2)\nend", "J = K + 1", "x = K", "K = K", "x[K] = K"};
  static const bool bad[] = {1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0}; std::string s, name = k == 8 ? "J" : "K"; int line;
  auto nl = [&] { int n = 1; for (char c : s) n += c == '\n'; return n; };
  bool late = nsym_choose("late", 2); const char *val = nsym_choose("kind", 2) ? "\"text\"" : "5";
  std::string decl = std::string("const K = ") + val + "\nconst J = 2\n"; if (!late) s = decl;
  s += "function main(a)\n var x = [1]\n";
  switch (place) { case 0: break; case 1: s += " if (a)\n"; break; case 2: s += " while (a)\n  x = 1\n"; break; case 3: s += " if (a)\n  x = 1\n else\n"; break; }
  line = nl(); s += std::string("  ") + st[k] + "\n"; if (place) s += " end\n"; s += " return x\nend\n"; if (late) s += decl;
  world w; w.builtins = false; bool ok = w.compile(s, nsym_choose("opt", 2)); nsym_out(ok);
  if (!bad[k]) { nsym_check(ok, ACC); return; }
  nsym_check(!ok, REJ); if (ok) return;
  nsym_check(w.err.line.file == 0 && w.err.line.line == line && w.err.error.find("'" + name + "'") != std::string::npos, WH);
}
//@ entry c17_const args=0-11
extern "C" void c17_const_init() {
  int k = nsym_choose("k", 4); std::string s; int line = 0; std::string name = "C";
  switch (k) { case 0: s = "const C\n"; line = 1; break; case 1: s = "\n\nconst A = 1\nconst C\nfunction m()\n return A\nend\n"; line = 4; break; case 2: s = "function m()\n return C\nend\nconst C\n"; line = 4; break; case 3: s = "const C\nvar g = C + 1\n"; line = 1; break; }
  world w; w.builtins = false; bool ok = w.compile(s); nsym_out(ok);
  nsym_check(!ok, REJ); if (!ok) nsym_check(w.err.line.line == line && w.err.error.find("'C'") != std::string::npos, WH);
}
//@ entry c17_const_init
extern "C" void c17_divzero() {
  int k = nsym_arg(0); char d[3]; for (auto &x : d) { x = (char)nsym_u8("d"); nsym_assume((x >= '0') & (x <= '9')); }
  std::string A(1, d[0]), B(1, d[1]), C(1, d[2]), s; int bad, line = 1; int b = d[1] - '0', a = d[0] - '0', c = d[2] - '0';
  switch (k) {
  case 0: s = "const K = " + A + " / " + B + "\n"; bad = b == 0; break;
  case 1: s = "const K = " + A + " % " + B + "\n"; bad = b == 0; break;
  case 2: s = "\nvar g = " + A + " / (" + B + " - " + C + ")\n"; bad = b == c; line = 2; break;
  case 3: s = "const Z = " + B + "\n\nconst K = " + A + " + " + C + " / Z\n"; bad = b == 0; line = 3; break;
  case 4: s = "const K = " + A + " / " + B + " * " + C + "\n"; bad = b == 0; break;
  case 5: s = "function m()\n return K\nend\nconst K = " + A + " % (Z * " + C + ")\nconst Z = " + B + "\n"; bad = (b == 0) | (c == 0); line = 4; break;
  case 6: s = "var g = -" + A + " / -" + B + "\n"; bad = b == 0; break;
  case 7: s = "const K = " + A + " / (" + B + " < " + C + ")\n"; bad = b >= c; break;
  }
  (void)a; world w; w.builtins = false; bool ok = w.compile(s, nsym_choose("opt", 2)); nsym_out(ok);
  nsym_check(ok == !bad, ok ? REJ : ACC);
  if (!ok) { nsym_check(w.err.line.file == 0 && w.err.line.line == line, WH); nsym_check(w.err.error.find("zero") != std::string::npos, WH); }
}
//@ entry c17_divzero args=0-7
// ---- long and similar names --------------------------------------------------------------------------
extern "C" void c17_similar() {
  int n = nsym_arg(0), k = nsym_choose("k", 8); std::string b(n, 'q'); if (n > 2) b[n - 2] = 'W'; std::string o = b;
  switch (k) { case 0: break; case 1: o[n - 1] = 'r'; break; case 2: o += 'q'; break; case 3: o[n - 1] = 'Q'; break; case 4: o = "_" + b; break; case 5: o += "_"; break; case 6: o[0] = 'p'; break; case 7: o += "1"; break; }
  int form = nsym_choose("form", 4); std::string s; bool valid; int line;
  switch (form) {
  case 0: s = "function m(" + b + ")\n return " + o + "\nend\n"; valid = o == b; line = 2; break;
  case 1: s = "function m(" + b + ")\n\n var " + o + "\nend\n"; valid = o != b; line = 3; break;
  case 2: s = "function " + b + "(x)\nend\nfunction m(y)\n\n " + o + "(y)\nend\n"; valid = o == b; line = 5; break;
  default: s = "function " + b + "(x)\nend\nfunction " + o + "(y)\nend\n"; valid = o != b; line = 3; break;
  }
  world w; w.builtins = false; bool ok = w.compile(s); nsym_out(ok);
  nsym_check(ok == valid, ok ? REJ : ACC);
  if (!ok) nsym_check(w.err.line.line == line && w.err.error.find("'" + o + "'") != std::string::npos, WH);
}
//@ entry c17_similar args=1,2,15,16,40,300,900
// ---- position: far down, in the second file -------------------------------------------------------------
extern "C" void c17_far() {
  int n = nsym_arg(0), k = nsym_choose("k", 5), second = nsym_choose("file", 2); std::string s; for (int i = 0; i < n; i++) s += i % 4 ? "\n" : "# c\n";
  static const char *f[] = {"function q(a)\n return nope\nend\n", "function q(a)\n var nope\n if (a)\n  var nope\n end\nend\n", "function nope(a)\nend\nfunction q(a)\n nope()\nend\n", "const nope = 1\nfunction q(a)\n nope = 2\nend\n", "function q(a)\n\n nope(1)\nend\n"}; static const int l[] = {2, 4, 4, 3, 3};
  s += f[k]; source_manager_t m; std::string one = "function one()\n return 1\nend\n"; if (second) m.load_from_string(one.c_str()); m.load_from_string(s.c_str());
  world w; w.builtins = false; bool ok = w.compile(m); nsym_out(ok); nsym_check(!ok, REJ);
  if (!ok) nsym_check(w.err.line.file == second && w.err.line.line == n + l[k] && w.err.error.find("'nope'") != std::string::npos, WH);
}
//@ entry c17_far args=0,3,260,33000 steps=2000000000
// ---- a fault anywhere in any expression of any statement ---------------------------------------------
extern "C" void c17_anywhere() {
  int o = nsym_arg(0), kind = nsym_choose("fault", 6), i = nsym_choose("inner", ctx::NEXPR), st = nsym_choose("statement", ctx::NSTMT); bool before = nsym_choose("order", 2);
  if (!nsym_tier()) nsym_assume(st % 6 == (o + i) % 6 || (o == 0 && st % 3 == i % 3));
  static const char *bad[] = {"zz", "zz.length", "id2(1)", "sys2(1, 2, 3)", "zz(1)", "zz[0]"}, *who[] = {"zz", "zz", "id2", "sys2", "zz", "zz"}, *good[] = {"gg", "gg.length", "id2(1, 2)", "sys2(1, 2)", "gg(1)", "gg[0]"};
  for (int fine = 0; fine < 2; fine++) {
    int line; std::string s = ctx::around(ctx::fill(ctx::stmts[st], ctx::nest(o, i, fine ? good[kind] : bad[kind])), line, before, "var gg\n"); line += ctx::stmt_line[st]; nsym_note(s.c_str());
    world w; w.builtins = false; w.add("any", -1, nullptr); w.add("sys2", 2, nullptr); bool ok = w.compile(s, before); nsym_out(ok);
    if (fine) { if (!ok) nsym_note(w.err.error.c_str()); nsym_check(ok, ACC); continue; }
    nsym_check(!ok, REJ); if (!ok) nsym_check(w.err.line.file == 0 && w.err.line.line == line && w.err.error.find("'" + std::string(who[kind]) + "'") != std::string::npos, WH);
  }
}
//@ entry c17_anywhere args=0-24
// a fault at any depth of nested blocks, before, inside or after them
extern "C" void c17_nest() {
  int n = nsym_arg(0), fault = nsym_choose("fault", 13), at = nsym_choose("at", n + 1), which = fault == 2 ? nsym_choose("which", at + 1) : 0, after = nsym_choose("after", 2), kind = nsym_choose("kind", 5), opt = nsym_choose("opt", 2);
  Prog p; p.konst("K", lit(4)); p.global("g", lit(1)); p.fn("f4", {"p", "q", "r", "s"}, block({ret(var("p"))}));
  auto bad = [&]() -> Node * {
    switch (fault) {
    case 0: return tr(var("zz")); case 1: return set("zz", lit(1)); case 2: return decl("d" + std::to_string(which), lit(2)); case 12: return decl("d" + std::to_string(at + 1), lit(2)); case 3: return decl("a", lit(2)); case 4: return set("K", lit(5)); case 5: return comp("K", "+", lit(1));
    case 6: return do_(call("f4", {lit(1), lit(2), lit(3)})); case 7: return do_(call("f4", {lit(1), lit(2), lit(3), lit(4), lit(5)})); case 8: return do_(call("t", {})); case 9: return seta("zz", lit(0), lit(1)); case 10: return tr(var("d" + std::to_string(n)));
    }
    return tr(var("a"));
  };
  std::function<Node *(int)> lev = [&](int l) -> Node * {
    std::vector<Node *> b{decl("d" + std::to_string(l), lit(l))}; Node *x = l < n ? lev(l + 1) : nullptr; int k = kind == 4 ? l % 4 : kind;
    if (l == at && !after) b.push_back(bad());
    if (x) { if (k == 0) b.push_back(if_(var("a"), x)); else if (k == 1) b.push_back(if_(var("a"), block({tr(lit(3))}), x)); else if (k == 2) b.push_back(while_(var("a"), x)); else { b.push_back(decl("i" + std::to_string(l), lit(0))); b.push_back(for_("i" + std::to_string(l), lit(0), lit(2), x)); } }
    if (l == at && after) b.push_back(bad());
    b.push_back(tr(var("d" + std::to_string(l)))); return block(b);
  };
  p.fn("main", {"a"}, block({lev(0)})); judge(p, false, opt != 0);
}
//@ entry c17_nest args=0-12 time=60
// functions of n parameters called with any number
extern "C" void c17_arity() {
  int n = nsym_arg(0), d = nsym_choose("d", 7) - 3, where = nsym_choose("where", 5), sys = nsym_choose("sys", 2), before = nsym_choose("before", 2), m = n + d; if (m < 0) return; if (nsym_choose("zero", 2)) { if (d) return; m = 0; }
  std::string c = "callee("; for (int i = 0; i < m; i++) c += (i ? "," : "") + std::to_string(i); c += ")";
  std::string f = "function callee("; for (int i = 0; i < n; i++) f += (i ? ",p" : "p") + std::to_string(i); f += ")\nend\n"; if (sys) f = "\n\n";
  std::string b; int line; switch (where) { case 0: b = " " + c + "\n"; line = 0; break; case 1: b = " return " + c + "\n"; line = 0; break; case 2: b = " if (1)\n  var z = [1, " + c + "]\n end\n"; line = 1; break; case 3: b = "\n t(t(" + c + "))\n"; line = 1; break; default: b = " var q = callee\n return q(" + (m ? c.substr(7) : ")") + "\n"; line = -1; break; }
  if (where == 4) { b = " var q = callee\n return q" + c.substr(6) + "\n"; }
  std::string g = "function main(a)\n" + b + "end\n", s = before ? f + g : g + f; line += 2 + (before ? 2 : 0);
  world w; w.builtins = false; w.add("t", 1, host_t); if (sys) w.add("callee", n, nullptr); nsym_note(s.c_str()); bool ok = w.compile(s), valid = n == m || where == 4; nsym_out(ok);
  nsym_check(ok == valid, valid ? ACC : REJ); if (!ok && !valid) nsym_check(w.err.line.line == line && w.err.error.find("'callee'") != std::string::npos, WH);
}
//@ entry c17_arity args=0-20,32,64,100,255,256,300
//@ bounds an undeclared name or a wrong argument count in each of 25 x 25 nested expression positions of 18 statement positions; 14 program shapes with up to 7 places filled from three names (one a system function), globals before and after; any letters in 5 shapes; functions of 0 to 4 parameters called with 0 to 5 arguments in 17 places; 12 assignments in 4 places; all digits in 8 constant divisions; names up to 900 characters; 33000 lines
//@ bounds 12 faults (a name of any outer or inner block declared again included) at any depth of 0-12 nested blocks of four kinds, before or after the inner block; functions of 0-20, 32, 64, 100, 255, 256 and 300 parameters called with up to three more or fewer, or none
//@ outside which of several faults in one program is reported; constants given something that is not a constant expression
