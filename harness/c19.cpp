// C19: lines, stepping, breakpoints
#include "deep.hpp"
#include "mix.hpp"
#include "shapes.hpp"
using namespace ref;
static const char *LN = "the line reported for an executing statement is the line it is written on";
// ---- programs, many small statements on lines of their own -----------------------------
static Prog flow(int k) {
  Prog p; p.global("g", lit(0)); auto L = [](int v) { return lit(v); }; std::vector<Node *> s;
  switch (k) {
  case 0: s = {decl("x", V("a")), if_(bin("<", V("x"), L(5)), block({comp("x", "+", L(1)), set("g", V("x"))}), block({comp("x", "-", L(1))})), ret(V("x"))}; break;
  case 1: s = {decl("n", L(0)), decl("x"), while_(bin("<", V("n"), L(3)), block({comp("n", "+", L(1)), if_(bin("==", V("n"), V("a")), block({tr(V("n"))}))})), set("x", V("n")), ret(bin("+", V("x"), V("g")))}; break;
  case 2: p.fn("sq", {"p"}, block({decl("q", bin("*", V("p"), V("p"))), ret(V("q"))})); p.fn("no", {"p"}, block({set("g", V("p"))}));
    s = {decl("x", call("sq", {V("a")})), do_(call("no", {call("sq", {V("i")})})), set("x", bin("+", call("sq", {L(2)}), call("no", {V("x")}))), ret(bin("-", V("x"), V("g")))}; break;
  case 3: s = {decl("n"), for_("n", L(0), L(3), block({if_(bin("<", V("n"), V("a")), block({do_(call("t", {V("n")}))}), block({comp("g", "+", V("n")), if_(V("i"), block({ret(V("g"))}))}))})), tr(V("g"))}; break;
  case 4: s = {if_(V("a"), block({if_(V("i"), block({tr(L(1))}), block({tr(L(2))}))}), block({if_(V("i"), block({tr(L(3))})), tr(L(4))})), decl("z", arr({V("a"), V("i")})), seta("z", L(0), L(9)), ret(idx(V("z"), V("i")))}; break;
  case 5: p.fn("f", {"n"}, block({if_(bin("<=", V("n"), L(0)), block({ret(L(1))})), decl("r", call("f", {bin("-", V("n"), L(1))})), ret(bin("*", V("r"), V("n")))}));
    s = {decl("r", call("f", {V("i")})), set("g", call("f", {L(2)})), ret(bin("+", V("r"), V("g")))}; break;
  case 6: s = {while_(bin("<", V("a"), L(0)), block({comp("a", "+", L(1)), if_(bin("==", V("a"), L(-1)), block({ret(str("early"))}))})), decl("j", L(0)), decl("n"), for_("n", V("i"), L(2), block({while_(bin("<", V("j"), V("n")), block({comp("j", "+", L(1))}))})), ret(V("j"))};
     break;
  case 7: s = {decl("f", V("len")), decl("x", arr({str("s"), V("f")})), decl("y", calle(idx(V("x"), L(1)), {idx(V("x"), L(0))})), if_(bin("==", V("y"), V("i")), block({tr(V("y"))})), do_(call("t", {bin("+", str("v"), V("y"))}))}; break;
  }
  p.fn("main", {"a", "i"}, block(s)); return p;
}
const int NFLOW = 8;
static Prog any(int k) { return k < NFLOW ? flow(k) : share_prog(k - NFLOW); }
static int nlines(const std::string &s) { int n = 1; for (char c : s) n += c == '\n'; return n; }
// the lines of real execution against the reference, repeats merged
static bool matches(const std::vector<int> &R, const std::vector<std::pair<int, bool>> &E) {
  size_t i = 0; int prev = -7;
  for (int r : R) {
    if (r == prev) continue;
    while (i < E.size() && E[i].first != r && (E[i].second || E[i].first == prev)) i++;
    if (i >= E.size() || E[i].first != r) return false;
    i++; prev = r;
  }
  while (i < E.size() && (E[i].second || E[i].first == prev)) i++;
  return i == E.size();
}
struct job {
  Prog p; std::string src; world w; vm_t *vm = nullptr; thread_t *t = nullptr; hval h[2]; bool ok = false;
  job(int k, bool opt) : job(any(k), opt) {}
  job(const Prog &q, bool opt) : p(q) { src = text(p); w.add("t", 1, host_t); ok = w.compile(src, opt); if (!ok) { nsym_check(0, "a valid script is accepted by the compiler"); return; } }
  thread_t *start(int a, int i) {
    host_trace().clear(); host_prog() = &w.prog;
    vm = new vm_t(w.prog); if (!vm->call_init()) { nsym_check(0, "globals are initialised"); return nullptr; }
    h_int(h[0], a); h_int(h[1], i); const value_t *av[2] = {h[0].p, h[1].p};
    const function_t *f = w.prog.function_find("main"); if (!f) return nullptr;
    t = vm->new_thread(*f, 2, av); if (!t) nsym_check(0, "a thread can be started"); return t;
  }
};
static void inputs(int k, int &a, int &i) { a = nsym_int("a"); i = nsym_choose("i", 2); if (k == 6) nsym_assume(a > -4); if (k >= NFLOW) { bool n = k - NFLOW == 3 || k - NFLOW == 17; if (n) nsym_assume(a == 5); } }
// every instruction: its line belongs to the statement being executed
static void lines(job &J, int a, int i) {
  Interp I(J.p); I.init(); I.lines.clear(); Val want = I.run("main", {Val::Int(a), Val::Int(i)}); if (I.bad()) return;
  thread_t *t = J.start(a, i); if (!t) return;
  std::vector<int> R; int n = 0;
  while (!t->finished() && n++ < 3000) { line_t l = t->get_source_line(); nsym_check(l.file == 0, LN); R.push_back(l.line); if (!t->step_inst()) break; }
  nsym_check(t->finished() && !t->has_error(), "stepping by instruction computes the result of running freely");
  if (!t->finished() || t->has_error()) return;
  if (!matches(R, I.lines)) { std::string m = "R:"; for (int x : R) m += " " + std::to_string(x); m += " E:"; for (auto &x : I.lines) m += " " + std::to_string(x.first) + (x.second ? "?" : ""); nsym_note(J.src.c_str()); nsym_note(m.c_str()); nsym_check(0, LN); }
  Deep d(I, J.w.prog); nsym_check(d.eq(want, t->get_return_value()), "stepping by instruction computes the result of running freely");
}
extern "C" void c19_lines() { int k = nsym_arg(0), a, i; job J(k, nsym_arg(1)); if (!J.ok) return; inputs(k, a, i); lines(J, a, i); }
// every form of an expression in every position, and every body of a few statements
extern "C" void c19_pos() { int f = nsym_choose("form", NFORM + 2); Node *v = V("a"), *e = f < NFORM ? formv(f, v) : f == NFORM ? call("zero") : lnot(v); Prog p; mix(p, nsym_arg(0), e); job J(p, nsym_choose("opt", 2)); if (!J.ok) return; lines(J, nsym_int("a"), 1); }
//@ entry c19_pos args=0-21
extern "C" void c19_shapes() { Shapes S(nsym_tier() ? 4 : 3, true); Prog p; p.global("c", lit(1)); p.fn("main", {"a", "b"}, S.body(nsym_arg(0), nsym_arg(1))); p.fn("after", {"q"}, block({ret(lit(998))})); job J(p, nsym_choose("opt", 2)); if (!J.ok) return; lines(J, nsym_int("a"), nsym_int("b")); }
//@ entry c19_shapes args=0-5 args1=0-6 time=100
//@ entry c19_lines args=0-25 args1=0,1
// a system call sees the line of the statement that made it
static std::vector<int> *seen; static int seenfile;
static void host_line(thread_t &th, int32_t n) { for (int i = 0; i < n; i++) th.get_stack().pop(); line_t l = th.get_source_line(); seen->push_back(l.line); seenfile |= l.file; th.get_stack().push_int(1); }
extern "C" void c19_syscall() {
  int k = nsym_arg(0), pre = nsym_choose("blank", 4), eol = nsym_choose("eol", 2); std::string s; int l = 1; const char *E = eol ? "\r\n" : "\n"; std::vector<int> want;
  auto put = [&](const std::string &x, bool m = false) { if (m) want.push_back(l); s += x; s += E; l++; };
  for (int i = 0; i < pre; i++) put(i == 1 ? "# comment" : "");
  switch (k) {
  case 0: put("function main(a)"); put(" w()", true); put("# c"); put(" var x = w()", true); put(""); put(" x = 1 + w()", true); put(" return w()", true); put("end"); break;
  case 1: put("function main(a)"); put(" if (w())", true); put("  w() # x", true); put(" end"); put(" while (w() == 0)", true); put(" end"); put(" var i"); put(" for (i = w() to 0)", true); put(" end"); put("end"); break;
  case 2: put("function main(a)"); put(" var l = [1, 2]"); put(" l[w()] = 3", true); put(" l[0] = w()", true); put(" a += w()", true); put(" a = l[w()]", true); put(" a = -w()", true); put(" a = not w()", true); put(" a = f(w())", true); put("end"); put("function f(x)"); put(" var y"); put(" y = \"s\" + w()", true); put("end"); break;
  case 3: put("const K = 3"); put(""); put("function main(a)"); put(" w(K)", true); put(" w(2 + 3 * K)", true); put(" w(\"s\", 1.5, none, main)", true); put(" if (K == 3)"); put("  w()", true); put(" else"); put("  w()"); put(" end"); put(" return K + w()", true); put(" w()"); put("end"); break;
  case 4: put("function main(a)"); put(" if (a)"); put("  w()", true); put(" else"); put("  w()"); put(" end"); put(" if (a == 0)"); put("  w()"); put(" else"); put(""); put("  w()", true); put(" end"); put(" w()", true); put("end"); break;
  }
  seen = new std::vector<int>; seenfile = 0;
  world w; w.builtins = false; w.add("w", -1, host_line); MUST_COMPILE(w, s, (bool)nsym_arg(1));
  vm_t vm(w.prog); if (!vm.call_init()) { nsym_check(0, "globals are initialised"); return; }
  hval h; int a = nsym_int("a"); if (k == 4) nsym_assume(a != 0); h_int(h, a); result r = run(vm, "main", 1, &h);
  nsym_check(r.ok && *seen == want && seenfile == 0, LN);
}
//@ entry c19_syscall args=0-4 args1=0,1
// an error is on the line of the statement that failed
static int errline, errfile, errs; static bool on_err(thread_t &t) { errs++; errline = t.get_source_line().line; errfile = t.get_source_line().file; return true; }
extern "C" void c19_errors() {
  static const char *bad[] = {"x = 1 / d", "l[d] = 1", "x = l[d]", "l.f = 1", "x = l.f", "x = l + l", "x = -s", "x(1)", "len(d)", "if (l < d)\nend", "while (l[d])\nend", "return d % d", "for (x = 0 to s)\nend", "s[0] = d", "var y = s - 1", "x = chr(s)", "l[0] = l[d]", "d = x[0]", "x = f(d)", "t(1)", "new_thread(main)"};
  int k = nsym_arg(0), place = nsym_choose("place", 5); std::string s; int line = 0;
  auto add = [&](const std::string &x) { s += x; s += "\n"; };
  add("# first"); add("function f(q)"); add(" return 1 / q"); add("end"); add("function main(d)"); add(" var x"); add(" var l = [1]"); add(" var s = \"s\"");
  std::string b = bad[k]; auto here = [&] { line = nlines(s); add(b); };
  switch (place) {
  case 0: here(); add(" x = 1"); break;
  case 1: add(" if (d == 0)"); here(); add(" else"); add("  x = 2"); add(" end"); add(" x = 3"); break;
  case 2: add(" while (1)"); add("  x = none"); here(); add(" end"); break;
  case 3: add(" x = none"); here(); break;                       // the last statement
  case 4: add(" var n"); add(" for (n = 0 to 2)"); add("  x = none"); add("  if (n)"); here(); add("  end"); add("  x = 5"); add(" end"); break;
  }
  add("end"); add("function after()"); add(" return 1"); add("end");
  if (k == 18) line = 3;
  world w; if (k == 19) w.extra.push_back({"t", 1, nullptr}); MUST_COMPILE(w, s, (bool)nsym_arg(1));
  vm_t vm(w.prog); errs = 0; vm.handlers.on_thread_error = on_err; if (!vm.call_init()) return;
  hval h; h_int(h, k == 1 || k == 2 || k == 10 || k == 16 ? 0 : 0); int d = k == 1 || k == 2 || k == 10 || k == 16 ? nsym_int("d") : 0;
  if (k == 1 || k == 2 || k == 10 || k == 16) { nsym_assume((d < 0) | (d > 0)); if (place == 1) return; } h_int(h, d);
  const value_t *av[1] = {h.p}; thread_t *t = vm.new_thread(*w.prog.function_find("main"), 1, av); if (!t) { nsym_check(0, "a thread can be started"); return; }
  int how = nsym_choose("how", 3), n = 0;
  while (!t->finished() && n++ < 300) { if (how == 0) t->resume(1000); else if (how == 1) t->step_inst(); else t->step_line(); }
  nsym_check(t->finished() && t->has_error(), "the statement fails"); if (!t->has_error()) return;
  line_t l = t->get_source_line(); nsym_out(l.line);
  nsym_check(l.line == line && l.file == 0, "a runtime error is on the line of the statement that failed");
  if (how == 0) nsym_check(errs == 1 && errline == line && errfile == 0, "a runtime error is on the line of the statement that failed");
}
//@ entry c19_errors args=0-20 args1=0,1
// ... in every form and position an expression can have
extern "C" void c19_errpos() {
  int f = nsym_choose("form", NFORM), w = nsym_choose("what", 4); Node *d = V("a");
  Node *bad = w == 0 ? bin("/", lit(1), d) : w == 1 ? idx(arr({lit(1)}), bin("+", d, lit(1))) : w == 2 ? calle(d, {lit(1)}) : bin("-", str("s"), d);
  Prog p; mix(p, nsym_arg(0), formv(f, bad)); job J(p, nsym_choose("opt", 2)); if (!J.ok) return;
  Interp I(J.p); I.init(); I.lines.clear(); int a = w == 0 ? 0 : nsym_int("a"); if (w == 1) nsym_assume(a != -1); I.run("main", {Val::Int(a), Val::Int(1)}); if (!I.bad() || I.lines.empty()) return;
  int want = I.lines.back().first; thread_t *t = J.start(a, 1); if (!t) return;
  int how = nsym_choose("how", 3), n = 0;
  while (!t->finished() && n++ < 400) { if (how == 0) t->resume(1000); else if (how == 1) t->step_inst(); else t->step_line(); }
  nsym_check(t->finished() && t->has_error(), "the statement fails"); if (!t->has_error()) return;
  line_t l = t->get_source_line(); nsym_out(l.line); nsym_check((l.line == want) & (l.file == 0), "a runtime error is on the line of the statement that failed");
}
//@ entry c19_errpos args=0-21
// ---- stops ------------------------------------------------------------------------------------
// all lines of one run, one per instruction
static bool trace(job &J, int a, int i, std::vector<line_t> &T) {
  thread_t *t = J.start(a, i); if (!t) return false; int n = 0;
  while (!t->finished() && n++ < 3000) { T.push_back(t->get_source_line()); if (!t->step_inst()) break; }
  bool ok = t->finished() && !t->has_error(); nsym_check(ok, "stepping by instruction computes the result of running freely"); return ok;
}
static int arrives(const std::vector<line_t> &T, int q, const std::vector<line_t> &B) {   // one condition
  if (q > 0 && T[q] == T[q - 1]) return 0;
  int hit = 0; for (auto &b : B) hit |= (b.file == T[q].file) & (b.line == T[q].line); return hit;
}
// breakpoints anywhere at all; run to each stop
extern "C" void c19_break() {
  int k = nsym_arg(0), nb = nsym_arg(1), a, i; job J(k, true); if (!J.ok) return;
  inputs(k, a, i); std::vector<line_t> T; if (!trace(J, a, i, T)) return;
  Interp I(J.p); I.init(); Val want = I.run("main", {Val::Int(a), Val::Int(i)}); if (I.bad()) return;
  std::vector<line_t> B; for (int j = 0; j < nb; j++) { line_t b(nb == 1 ? nsym_int("file") : 0, nsym_int("line")); B.push_back(b); }
  thread_t *t = J.start(a, i); if (!t) return; int mode = nsym_arg(2);
  for (auto &b : B) t->breakpoint_add(b);
  if (nb == 2 && mode == 1) { nsym_assume(B[0].line != B[1].line); t->breakpoint_remove(B[0]); B.erase(B.begin()); if (0) B.clear(); }
  int p = 0, N = (int)T.size(), n = 0; bool start = true;
  while (!t->finished() && n++ < 400) {
    if (mode == 2) { nsym_check(J.vm->resume(100000), "no error"); } else t->resume(100000);
    // where it must have stopped
    int q = p; bool stop = false;
    if (start && arrives(T, 0, B)) stop = true; else { for (q = p + 1; q < N; q++) if (arrives(T, q, B)) { stop = true; break; } }
    start = false;
    nsym_check(t->finished() == !stop, "a breakpoint stops a thread exactly when execution arrives at its line"); if (t->finished() != !stop) return;
    if (!stop) break;
    nsym_check((int)t->get_cycle_count() == q && t->get_source_line() == T[q], "a breakpoint stops a thread exactly when execution arrives at its line");
    if ((int)t->get_cycle_count() != q) return;
    p = q;
  }
  nsym_check(t->finished() && !t->has_error(), "a thread with breakpoints can be resumed to its end"); if (!t->finished()) return;
  Deep d(I, J.w.prog); nsym_check(d.eq(want, t->get_return_value()), "with breakpoints and steps the program computes the same result");
}
//@ entry c19_break args=0-7,8,11,13,19,22 args1=1 args2=0,2 time=90
//@ entry c19_break args=0-2 args1=2 args2=0,1 targs=0-7 time=90 ttime=600
// stepping by line
extern "C" void c19_step_line() {
  int k = nsym_arg(0), a, i; job J(k, nsym_arg(1)); if (!J.ok) return;
  inputs(k, a, i); std::vector<line_t> T; if (!trace(J, a, i, T)) return;
  Interp I(J.p); I.init(); Val want = I.run("main", {Val::Int(a), Val::Int(i)}); if (I.bad()) return;
  thread_t *t = J.start(a, i); if (!t) return; int p = 0, N = (int)T.size(), n = 0;
  while (!t->finished() && n++ < 400) {
    t->step_line(); int q = p + 1; while (q < N && T[q] == T[p]) q++;
    nsym_check(t->finished() == (q >= N), "stepping by line stops when another line is reached or the thread ends"); if (t->finished()) break;
    nsym_check((int)t->get_cycle_count() == q && t->get_source_line() == T[q], "stepping by line stops when another line is reached or the thread ends"); if ((int)t->get_cycle_count() != q) return;
    p = q;
  }
  nsym_check(t->finished() && !t->has_error(), "stepping by line computes the same result"); if (!t->finished()) return;
  Deep d(I, J.w.prog); nsym_check(d.eq(want, t->get_return_value()), "stepping by line computes the same result");
}
//@ entry c19_step_line args=0-25 args1=0,1
// any mixture
extern "C" void c19_mix() {
  int k = nsym_arg(0); job J(k, true); if (!J.ok) return;
  int a = nsym_arg(1), i = 1; std::vector<line_t> T; if (!trace(J, a, i, T)) return;
  Interp I(J.p); I.init(); Val want = I.run("main", {Val::Int(a), Val::Int(i)}); if (I.bad()) return;
  thread_t *t = J.start(a, i); if (!t) return; std::vector<line_t> cand; for (auto &l : T) { bool dup = false; for (auto &c : cand) dup |= c == l; if (!dup && cand.size() < 3) cand.push_back(l); } cand.push_back(T.back()); cand.push_back(line_t(1, T[0].line));
  std::vector<line_t> B; int p = 0, N = (int)T.size(), n = 0, free = nsym_tier() ? 6 : 4; bool start = true;
  while (!t->finished() && n++ < 500) {
    int act = n <= free ? nsym_choose("act", 6) : 0, q = p, c = 0;
    switch (act) {
    case 0: case 1: c = act ? 3 : 100000; t->resume(c);
      if (start && p == 0 && arrives(T, 0, B)) { start = false; break; }
      for (int e = 0; e < c && q < N;) { q++; e++; if (q < N && arrives(T, q, B)) break; } break;
    case 2: t->step_line(); q++; while (q < N && T[q] == T[p]) q++; break;
    case 3: t->step_inst(); q++; break;
    case 4: { line_t b = cand[nsym_choose("line", (int)cand.size())]; t->breakpoint_add(b); B.push_back(b); break; }
    case 5: t->breakpoint_clear(); B.clear(); break;
    }
    if (act < 2) start = false;
    nsym_check(t->finished() == (q >= N), "each step or resume stops exactly where it should"); if (t->finished()) break;
    nsym_check((int)t->get_cycle_count() == q && t->get_pc() >= 0 && t->get_source_line() == T[q], "each step or resume stops exactly where it should"); if ((int)t->get_cycle_count() != q) return;
    p = q;
  }
  nsym_check(t->finished() && !t->has_error(), "with breakpoints and steps the program computes the same result"); if (!t->finished()) return;
  Deep d(I, J.w.prog); nsym_check(d.eq(want, t->get_return_value()), "with breakpoints and steps the program computes the same result");
}
//@ entry c19_mix args=0-5,13 args1=1,7 time=100
// ---- files, long texts ---------------------------------------------------------------------------
extern "C" void c19_files() {
  int how = nsym_arg(0); world w; w.builtins = false; w.add("w", 1, host_line); source_manager_t s;
  std::string A = "\nfunction one(a)\n w(a)\n return a\nend\n", M = "function main(a)\n one(a)\n two(a)\n w(a)\nend\n", C = "# x\n\n\nfunction two(a)\n\n w(a)\nend\n";
  static std::vector<line_t> *got; got = new std::vector<line_t>;
  auto rec = [](thread_t &th, int32_t) { th.get_stack().pop(); got->push_back(th.get_source_line()); th.get_stack().push_int(1); };
  w.extra[0].f = rec; int fa, fm, fc;
  if (how == 0) { s.load_from_string(A.c_str()); s.load_from_string(M.c_str()); s.load_from_string(C.c_str()); fa = 0; fm = 1; fc = 2; }
  else { nsym_file_put("a.txt", A.data(), A.size()); nsym_file_put("c.txt", C.data(), C.size()); M = "import \"a.txt\"\nimport \"c.txt\"\n" + M; nsym_file_put("m.txt", M.data(), M.size()); if (!s.load("m.txt")) { nsym_check(0, "a source file can be loaded"); return; } fa = 1; fm = 0; fc = 2; }
  if (!w.compile(s)) { nsym_note(w.err.error.c_str()); nsym_check(0, "a valid script is accepted by the compiler"); return; }
  int off = how ? 2 : 0; vm_t vm(w.prog); hval h; h_int(h, nsym_int("a")); vm.call_init();
  const value_t *av[1] = {h.p}; thread_t *t = vm.new_thread(*w.prog.function_find("main"), 1, av); if (!t) return;
  // a breakpoint on some line of some file
  line_t b(nsym_choose("file", 4), nsym_range("line", 1, 9)); t->breakpoint_add(b); int n = 0, stops = 0; bool at = true;
  while (!t->finished() && n++ < 50) { t->resume(1000); if (!t->finished()) { stops++; at &= t->get_source_line() == b; } }
  nsym_check(got->size() == 3 && (*got)[0] == line_t(fa, 3) && (*got)[1] == line_t(fc, 6) && (*got)[2] == line_t(fm, 4 + off), "the line reported is in the right file");
  nsym_check(at, "a breakpoint stops a thread exactly when execution arrives at its line");
  bool reach = (b.file == fa && b.line == 3) || (b.file == fa && b.line == 4) || (b.file == fc && b.line == 6) || (b.file == fm && b.line == 4 + off) || (b.file == fm && (b.line == 2 + off || b.line == 3 + off));
  bool opt = (b.file == fc && b.line == 7) || (b.file == fm && b.line == 5 + off);
  if (!opt) nsym_check((stops > 0) == reach, "a breakpoint stops a thread exactly when execution arrives at its line");
}
//@ entry c19_files args=0,1
extern "C" void c19_many() {
  int n = nsym_arg(0); std::string s; for (int i = 0; i < n; i++) s += i % 5 == 2 ? "# c\n" : "\n";
  s += "function main(a)\n"; for (int i = 0; i < 40; i++) s += "\n w(a)\n"; s += " return 1 / a\nend\n";
  seen = new std::vector<int>; seenfile = 0; world w; w.builtins = false; w.add("w", 1, host_line); MUST_COMPILE(w, s);
  vm_t vm(w.prog); hval h; int a = nsym_int("a"); h_int(h, a); vm.call_init(); const value_t *av[1] = {h.p}; thread_t *t = vm.new_thread(*w.prog.function_find("main"), 1, av); if (!t) return;
  t->breakpoint_add(line_t(0, n + 5)); t->resume(100000);
  nsym_check(!t->finished() && t->get_source_line() == line_t(0, n + 5) && seen->size() == 1, "a breakpoint stops a thread exactly when execution arrives at its line");
  t->resume(100000); nsym_check(t->finished() && t->has_error() == (a == 0), "resuming continues past the breakpoint");
  if (t->has_error()) nsym_check(t->get_source_line().line == n + 82, "a runtime error is on the line of the statement that failed");
  bool ok = seen->size() == 40; for (int i = 0; ok && i < 40; i++) ok = (*seen)[i] == n + 3 + 2 * i; nsym_check(ok, LN);
}
//@ entry c19_many args=0,250,300,33000 targs=0,250,300,33000,70000,140000 steps=3000000000
// many files, many breakpoints
extern "C" void c19_breaks() {
  int n = nsym_arg(0), nf = nsym_arg(1), a = nsym_int("a"), order = nsym_choose("order", 3), step = nsym_choose("step", 2); seen = new std::vector<int>; seenfile = 0; auto T = [](int x) { return std::to_string(x); };
  world w; w.builtins = false; w.add("w", 1, host_line); source_manager_t s; w.extra[0].f = [](thread_t &th, int32_t) { th.get_stack().pop(); seen->push_back(th.get_source_line().file * 1000 + th.get_source_line().line); th.get_stack().push_int(1); };
  for (int f = 0; f < nf; f++) { std::string x = std::string(f % 3, '\n') + "function f" + T(f) + "(a)\n"; for (int i = 0; i < n; i++) x += " w(a)\n"; x += f + 1 < nf ? " f" + T(f + 1) + "(a)\nend\n" : " return a\nend\n"; s.load_from_string(x.c_str()); }
  bool ok = w.compile(s); nsym_check(ok, "a valid script is accepted by the compiler"); if (!ok) return; vm_t vm(w.prog); hval h; h_int(h, a); vm.call_init(); const value_t *av[1] = {h.p}; thread_t *t = vm.new_thread(*w.prog.function_find("f0"), 1, av); if (!t) return;
  auto marked = [&](int f, int i) { return (f * 7 + i * 3) % 4 != 1; }; std::vector<line_t> bp; for (int f = 0; f < nf; f++) for (int i = 0; i < n; i++) if (marked(f, i)) bp.push_back(line_t(f, f % 3 + 2 + i));
  for (size_t k = 0; k < bp.size(); k++) t->breakpoint_add(order == 1 ? bp[bp.size() - 1 - k] : bp[k]); std::vector<line_t> left;
  if (order == 2) { for (size_t k = 0; k < bp.size(); k++) if (k % 3 == 1) t->breakpoint_remove(bp[k]); else left.push_back(bp[k]); } else left = bp;
  std::vector<line_t> got; int c = 0; bool halted = true;
  while (!t->finished() && c++ < 4000) { t->resume(100000); if (t->finished()) break; got.push_back(t->get_source_line()); halted &= (int)seen->size() < n * nf; if (step && c % 2) { size_t k = got.size(); if (k < left.size() && left[k].file == left[k - 1].file && left[k].line == left[k - 1].line + 1) { t->step_line(); got.push_back(t->get_source_line()); } } }
  nsym_check(t->finished() && !t->has_error() && halted, "resuming continues past the breakpoint"); ok = got.size() == left.size(); for (size_t k = 0; ok && k < got.size(); k++) ok = got[k] == left[k]; nsym_check(ok, "a breakpoint stops a thread exactly when execution arrives at its line");
  ok = (int)seen->size() == n * nf; for (int k = 0; ok && k < n * nf; k++) ok = (*seen)[k] == k / n * 1000 + k / n % 3 + 2 + k % n; nsym_check(ok, LN);
}
//@ entry c19_breaks args=1,2,3,8,9,17,33,70 args1=1,2,3,9,17,33 steps=800000000 time=60
//@ bounds 26 programs, optimised and not, for every integer argument; one breakpoint at any line of any file, or two at any lines (3 programs, thorough 8); every mixture of resume, resume for 3 instructions, line step, instruction step, setting a breakpoint at one of five lines and clearing them over the first 4 (thorough 6) actions
//@ bounds 17 forms of an expression in 22 positions and every body of up to 3 (thorough 4) statements with variable and constant conditions; failing expressions in 15 forms and 22 positions
//@ bounds 21 failing statements in 5 places; up to 33000 (thorough 140000) lines; up to 1700 breakpoints over 33 files, set in order, in reverse, or partly removed
