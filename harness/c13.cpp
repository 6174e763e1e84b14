// C13: saving and loading programs
#include "deep.hpp"
using namespace ref;
static const char *RT = "loading restores what was saved";
static int eqs(const std::string &a, const std::string &b) { if (a.size() != b.size()) return 0; int d = 0; for (size_t k = 0; k < a.size(); k++) d |= a[k] ^ b[k]; return d == 0; }
static int eqids(const std::vector<identifier_t> &a, const std::vector<identifier_t> &b) {
  if (a.size() != b.size()) return 0;
  int ok = 1; for (size_t k = 0; k < a.size(); k++) ok &= eqs(a[k].name_, b[k].name_) & (a[k].offset_ == b[k].offset_);
  return ok;
}
static void same_program(program_t &p, program_t &q) {
  nsym_check(p.functions().size() == q.functions().size(), RT);
  int ok = 1;
  for (size_t k = 0; k < p.functions().size() && k < q.functions().size(); k++) {
    const function_t &f = p.functions()[k], &g = q.functions()[k];
    ok &= eqs(f.name_, g.name_) & (f.code_start_ == g.code_start_) & (f.code_end_ == g.code_end_);
    ok &= eqids(f.args_, g.args_); ok &= eqids(f.locals_, g.locals_);
  }
  nsym_check(ok, "functions load back with their names, addresses, arguments and locals");
  nsym_check(p.syscalls().size() == q.syscalls().size(), RT); ok = 1;
  for (size_t k = 0; k < p.syscalls().size() && k < q.syscalls().size(); k++) ok &= eqs(p.syscalls()[k].name_, q.syscalls()[k].name_);
  nsym_check(ok, "system call names load back");
  nsym_check(p.size() == q.size(), RT); ok = 0;
  for (size_t k = 0; k < p.size() && k < q.size(); k++) ok |= p.data()[k] ^ q.data()[k];
  nsym_check(ok == 0, "code loads back");
  nsym_check(p.line_table().size() == q.line_table().size(), RT); ok = 1;
  for (auto a = p.line_table().begin(), b = q.line_table().begin(); a != p.line_table().end() && b != q.line_table().end(); ++a, ++b) ok &= a->first == b->first && a->second == b->second;
  nsym_check(ok, "line numbers load back");
  nsym_check(p.strings().size() == q.strings().size(), RT); ok = 1;
  for (size_t k = 0; k < p.strings().size() && k < q.strings().size(); k++) ok &= eqs(p.strings()[k], q.strings()[k]);
  nsym_check(ok, "string constants load back");
}
// what the target program object held before
static void dirty(world &w, int how) {
  if (how == 1) w.compile("const k = 5\nvar old = 3\nvar zzz\nfunction main(x, y, z)\n var q = \"old string\"\n return q + sin(1)\nend\nfunction older()\n return 7\nend\n");
  if (how == 2) { world v; v.compile("function main()\n return \"loaded before\"\nend\n"); v.prog.serial_save("before.bin"); w.prog.serial_load("before.bin"); }
}
// ---- programs that compile: they run the same after loading ------------------------
static Prog extra_prog(int k) {
  Prog p; std::vector<Node *> s; auto A = [](std::vector<Node *> e) { return arr(e); };
  switch (k) {
  case 0: p.fn("main", {"a", "i"}, block({})); return p;
  case 1: // no strings, globals only
    p.global("g", lit(3)); p.global("h", bin("*", var("g"), lit(2))); s = {ret(A({var("g"), var("h"), var("a")}))}; break;
  case 2: // strings of many lengths
    { std::vector<Node *> e; int n[] = {0, 1, 2, 15, 16, 127, 128, 255, 256, 257, 1000, 4095, 4096, 5000}; for (int x : n) e.push_back(str(std::string(x, (char)('a' + x % 26)))); s = {ret(A(e))}; } break;
  case 3: // floats, negative constants
    s = {ret(A({flt("0.1"), flt("123456.75"), neg(lit(2147483647)), lit((int)0x80000000u), flt("3.0"), neg(flt("2.5"))}))}; break;
  case 4: // many functions
    { std::vector<Node *> e; for (int x = 0; x < 40; x++) { std::string n = "fn" + std::to_string(x); p.fn(n, x & 1 ? std::vector<std::string>{"p"} : std::vector<std::string>{"p", "q"}, block({decl("loc" + std::to_string(x), lit(x)), ret(bin("+", var("p"), var("loc" + std::to_string(x))))})); e.push_back(call(n, x & 1 ? std::vector<Node *>{var("a")} : std::vector<Node *>{var("a"), var("i")})); } s = {ret(A(e))}; } break;
  case 5: // long names
    { std::string n(300, 'n'); p.global(n + "g", str(n)); p.fn(n + "f", {n + "p"}, block({decl(n + "l", var(n + "p")), ret(A({var(n + "l"), var(n + "g")}))})); s = {ret(call(n + "f", {var("a")}))}; } break;
  case 6: // many string constants (more than 255), long code, many lines
    for (int x = 0; x < 300; x++) s.push_back(tr(str("s" + std::to_string(x)))); s.push_back(ret(var("a"))); break;
  case 7: // system calls, errors
    s = {tr(var("a")), tr(call("len", {str("four")})), decl("x", var("len")), tr(calle(var("x"), {str("seven..")})), ret(bin("/", lit(100), var("i")))}; break;
  case 8: // punctuation and non-ascii in strings
    s = {ret(A({str("#,()[]'\\%s %d\t\r"), str("\xff\x80\x01\x7f"), str("var end none")}))}; break;
  case 9: // wrong number of arguments through a variable
    s = {decl("x", A({var("len"), var("new_array")})), tr(lit(1)), ret(calle(idx(var("x"), var("i")), {var("a"), var("a")}))}; break;
  case 10: p.fn("two", {"p", "q"}, block({tr(var("p")), ret(var("q"))}));
    s = {decl("x", var("two")), if_(var("i"), block({ret(calle(var("x"), {var("a"), lit(2)}))})), ret(calle(var("x"), {var("a")}))}; break;
  }
  p.fn("main", {"a", "i"}, block(s));
  return p;
}
extern "C" void c13_run() {
  int k = nsym_arg(0), how = nsym_arg(1);
  Prog p = k < NSHARE ? share_prog(k) : extra_prog(k - NSHARE);
  Interp I(p); I.fuel = 3000; I.init(); int a = nsym_int("a"), i = nsym_choose("i", 2);
  Val want = I.run("main", {Val::Int(a), Val::Int(i)});
  world w; w.add("t", 1, host_t); MUST_COMPILE(w, text(p));
  int nf = nsym_open_files();
  nsym_check(w.prog.serial_save("prog.bin"), "saving succeeds");
  world q; dirty(q, how);
  nsym_check(q.prog.serial_load("prog.bin"), "a saved program loads"); 
  nsym_check(nsym_open_files() == nf, "files are closed again");
  same_program(w.prog, q.prog);
  // it runs like the original
  q.add("t", 1, host_t); q.resolve();
  host_trace().clear(); host_prog() = &q.prog; vm_t vm(q.prog);
  nsym_check(vm.call_init(), "globals are initialised");
  const function_t *f = q.prog.function_find("main"); nsym_check(f != nullptr, RT); if (!f) return;
  hval h[2]; h_int(h[0], a); h_int(h[1], i); const value_t *av[2] = {h[0].p, h[1].p}; value_t *rv = nullptr; thread_error_t e;
  bool ok = vm.call_once(*f, 2, av, rv, e);
  nsym_check(ok == !I.bad(), "a loaded program runs like the original");
  auto &tr = host_trace(); nsym_check(tr.size() == I.trace.size(), "a loaded program runs like the original");
  for (size_t j = 0; j < tr.size() && j < I.trace.size(); j++) nsym_check(same(tr[j], I.trace[j]), "a loaded program runs like the original");
  if (!ok) { nsym_check(e == I.err, "a loaded program runs like the original"); return; }
  Deep d(I, q.prog); int good = d.eq(want, rv);
  for (size_t j = 0; j < vm.globals().size() && j < I.glob.size(); j++) good &= d.eq(I.glob[j].second, vm.globals()[j]);
  nsym_check(good, "a loaded program runs like the original");
  if (nsym_choose("again", 2)) {   // saving what was loaded gives the same once more
    nsym_check(q.prog.serial_save("again.bin"), "saving succeeds"); world z; dirty(z, how);
    nsym_check(z.prog.serial_load("again.bin"), "a saved program loads"); same_program(w.prog, z.prog);
  }
}
//@ entry c13_run args=0-28 args1=0-2
// ---- string constants and literals with symbolic content ------------------------------
extern "C" void c13_literals() {
  int n = nsym_arg(0); char b[24]; nsym_bytes(b, n, "s"); char dg[10]; nsym_bytes(dg, 10, "d");
  for (int k = 0; k < n; k++) nsym_assume((b[k] != 0) & (b[k] != '"') & (b[k] != '\n'));
  for (int k = 0; k < 10; k++) nsym_assume((dg[k] >= '0') & (dg[k] <= '9'));
  std::string src = "var g = \"" + std::string(b, n) + "\"\nfunction main()\n return g\nend\nfunction num()\n return " + std::string(dg, 10) + "\nend\n";
  world w; MUST_COMPILE(w, src);
  nsym_check(w.prog.serial_save("p.bin"), "saving succeeds");
  world q; nsym_check(q.prog.serial_load("p.bin"), "a saved program loads"); same_program(w.prog, q.prog); q.resolve();
  vm_t vm(q.prog); nsym_check(vm.call_init(), "globals are initialised");
  result r = run(vm, "main"); nsym_check(r.is_str(b, n), "string constants load back whatever their content");
  vm_t o(w.prog); nsym_check(o.call_init(), "globals are initialised"); result x = run(o, "num");
  r = run(vm, "num"); nsym_check(x.ok && r.is_int(x.v->v), "constants load back");
}
//@ entry c13_literals args=0,1,2,7,24
// ---- every field of a program object, any values ---------------------------------------
extern "C" void c13_fields() {
  int k = nsym_arg(0);
  world w; MUST_COMPILE(w, "function f(p, q)\n var l = \"one\"\n return l + \"two\"\nend\nfunction g()\n var m = len(\"x\")\n return m\nend\n");
  auto sym = [](int n, const char *nm) { std::string s(n, 0); if (n) nsym_bytes(&s[0], n, nm); return s; };
  program_t &p = w.prog;
  switch (k) {
  case 0: p.strings()[0] = sym(5, "s"); p.strings()[1] = sym(0, "e"); p.strings().push_back(sym(17, "t")); break;
  case 1: for (auto &f : p.functions()) { f.name_ = sym(4, "n"); f.code_start_ = nsym_int("cs"); f.code_end_ = nsym_int("ce"); } break;
  case 2: for (auto &f : p.functions()) { for (auto &a : f.args_) { a.name_ = sym(3, "a"); a.offset_ = nsym_int("o"); } for (auto &l : f.locals_) { l.name_ = sym(2, "l"); l.offset_ = nsym_int("p"); } } break;
  case 3: for (auto &s : p.syscalls()) { s.name_ = sym(6, "y"); } break;
  case 4: p.strings().clear(); break;
  case 5: p.functions().clear(); break;
  case 6: p.syscalls().clear(); break;
  case 7: p.strings()[0] = std::string(70000, 'z'); p.strings()[0][69999] = nsym_u8("c"); p.strings()[1] = sym(3, "s"); break;
  case 8: p.functions()[0].args_.clear(); p.functions()[0].locals_.clear(); p.functions()[1].locals_.resize(300); for (auto &l : p.functions()[1].locals_) l.offset_ = 0; p.functions()[1].locals_[299].offset_ = nsym_int("o"); break;
  case 9: { program_t z; nsym_check(z.serial_save("f.bin"), "saving succeeds"); world q; dirty(q, 1); nsym_check(q.prog.serial_load("f.bin"), "a saved program loads"); same_program(z, q.prog); return; }
  }
  nsym_check(p.serial_save("f.bin"), "saving succeeds");
  world q; dirty(q, nsym_choose("dirty", 2));
  nsym_check(q.prog.serial_load("f.bin"), "a saved program loads"); same_program(p, q.prog);
}
//@ entry c13_fields args=0-9
// ---- the same path again, other paths ------------------------------------------------------
extern "C" void c13_paths() {
  world a, b; MUST_COMPILE(a, "function main()\n return \"a much longer program than the other one, with a long string\"\nend\nfunction two(x)\n return x\nend\n"); MUST_COMPILE(b, "function main()\n return 1\nend\n");
  nsym_check(a.prog.serial_save("x.bin") && a.prog.serial_save("y.bin") && b.prog.serial_save("x.bin"), "saving succeeds");
  world q, r; nsym_check(q.prog.serial_load("x.bin") && r.prog.serial_load("y.bin"), "a saved program loads");
  same_program(b.prog, q.prog); same_program(a.prog, r.prog);
  nsym_check(r.prog.serial_load("x.bin"), "a saved program loads"); same_program(b.prog, r.prog);
  nsym_check(q.prog.serial_load("y.bin"), "a saved program loads"); same_program(a.prog, q.prog);
  world z; nsym_check(!z.prog.serial_load("missing.bin"), "loading a missing file fails");
}
//@ entry c13_paths
// ---- writing fails ---------------------------------------------------------------------------
extern "C" void c13_fault() {
  int kind = nsym_arg(0), size = nsym_arg(1);
  world w; MUST_COMPILE(w, "function main()\n return \"" + std::string(size, 'q') + "\"\nend\n");
  // how long the whole file is
  nsym_check(w.prog.serial_save("whole.bin"), "saving succeeds");
  FILE *f = fopen("whole.bin", "rb"); fseek(f, 0, SEEK_END); int len = (int)ftell(f); fclose(f);
  int n = kind == 1 ? nsym_range("n", 0, len + 2) : kind == 2 ? nsym_choose("n", 6) : 0;
  int nf = nsym_open_files();
  nsym_fault(kind, n);
  bool ok = w.prog.serial_save("out.bin");
  bool hit = nsym_fault_hit() != 0;
  nsym_fault(0, 0);
  nsym_check(!(ok && hit), "a file that cannot be written completely is reported");
  nsym_check(ok || hit, "saving succeeds");
  nsym_check(nsym_open_files() == nf, "files are closed again");
  // the program object is still good
  nsym_check(w.prog.serial_save("out.bin"), "saving succeeds");
  world q; nsym_check(q.prog.serial_load("out.bin"), "a saved program loads"); same_program(w.prog, q.prog);
}
//@ entry c13_fault args=1-4 args1=10,3000,9000,20000
// ---- counts and sizes of everything ----------------------------------------------------------
static int got_; static void host_n(thread_t &t, int32_t n) { int x = 0; for (int i = 0; i < n; i++) { value_t *v = t.get_stack().pop(); x = (int)((uint32_t)x * 3u + (uint32_t)v->v); } got_ = n; t.get_stack().push_int(x); }
extern "C" void c13_sysargs() { // system functions of n arguments, called directly and through a variable with m
  int n = nsym_arg(0), m = nsym_choose("m", 11), a = nsym_int("a"); auto args = [&](int c) { std::string s = "("; for (int i = 0; i < c; i++) s += (i ? ", a + " : "a + ") + std::to_string(i * i); return s + ")"; };
  std::string src = "function direct(a)\n return host" + args(n) + "\nend\nfunction via(a)\n var h = host\n return h" + args(m) + "\nend\n";
  world w, q; w.add("host", n, host_n); q.add("host", n, host_n); MUST_COMPILE(w, src); nsym_check(w.prog.serial_save("s.bin"), "saving succeeds"); dirty(q, nsym_choose("dirty", 2)); nsym_check(q.prog.serial_load("s.bin"), "a saved program loads"); q.resolve();
  vm_t v1(w.prog), v2(q.prog); nsym_check(v1.call_init() && v2.call_init(), "globals are initialised"); hval h; h_int(h, a);
  const char *fs[] = {"direct", "via"}; for (const char *f : fs) { got_ = -1; result r1 = run(v1, f, 1, &h); int g1 = got_; got_ = -1; result r2 = run(v2, f, 1, &h); nsym_check(r1.ok == r2.ok && g1 == got_ && (r1.ok ? r2.is_int(r1.v->v) : r1.err == r2.err), "a loaded program runs like the original"); nsym_check(r1.ok == (f == fs[0] || n == m), "a system function is called with the number of arguments it takes"); }
}
//@ entry c13_sysargs args=0-10
extern "C" void c13_count() { // n files, functions, strings, parameters, locals, lines
  int k = nsym_arg(0), n = nsym_arg(1), a = nsym_int("a"); auto T = [](int x) { return std::to_string(x); }; std::string s, e = "0"; uint32_t want = 0; source_manager_t sm; if (k == 0 && n > 130) return;
  switch (k) {
  case 0: for (int j = 0; j < n; j++) { std::string f = "function f" + T(j) + "(x)\n" + std::string(j % 5, '\n') + " return x + " + T(j) + "\nend\n", nm = "m" + T(j) + ".n"; nsym_file_put(nm.c_str(), f.data(), f.size()); s += "import \"" + nm + "\"\n"; } s += "function main(a)\n return f" + T(n - 1) + "(a) + f0(a)\nend\n"; want = 2 * (uint32_t)a + n - 1; break;
  case 1: for (int j = 0; j < n; j++) s += "function f" + T(j) + "(x)\n return x + " + T(j) + "\nend\n"; s += "function main(a)\n return f" + T(n - 1) + "(a) + f0(a)\nend\n"; want = 2 * (uint32_t)a + n - 1; break;
  case 2: s = "function main(a)\n var l = 0\n"; for (int j = 0; j < n; j++) s += " l += len(\"" + std::string(j % 11, 'x') + "." + T(j) + "\")\n"; for (int j = 0; j < n; j++) want += j % 11 + 1 + T(j).size(); s += " return l + a\nend\n"; want += a; break;
  case 3: s = "function f("; for (int j = 0; j < n; j++) s += (j ? ", p" : "p") + T(j); s += ")\n return p0 * 2 + p" + T(n - 1) + "\nend\nfunction main(a)\n return f("; for (int j = 0; j < n; j++) s += (j ? ", a + " : "a + ") + T(j); s += ")\nend\n"; want = 3 * (uint32_t)a + n - 1; break;
  case 4: s = "function main(a)\n"; for (int j = 0; j < n; j++) s += " var v" + T(j) + " = a + " + T(j) + "\n"; s += " return v0 * 2 + v" + T(n - 1) + "\nend\n"; want = 3 * (uint32_t)a + n - 1; break;
  case 5: for (int j = 0; j < n; j++) s += "var g" + T(j) + " = " + T(j * 3) + "\n"; s += "function main(a)\n return g0 + g" + T(n - 1) + " + a\nend\n"; want = (uint32_t)a + 3 * (n - 1); break;
  case 6: s = std::string(n * 300, '\n') + "function main(a)\n" + std::string(n * 5, '\n') + " return a / 1\nend\n"; want = a; break;
  }
  world w, q; bool ok = sm.load_from_string(s.c_str()) && w.compile(sm); if (!ok) nsym_note(w.err.error.c_str()); nsym_check(ok, "a valid script is accepted by the compiler"); if (!ok) return;
  nsym_check(w.prog.serial_save("c.bin"), "saving succeeds"); dirty(q, nsym_choose("dirty", 3)); nsym_check(q.prog.serial_load("c.bin"), "a saved program loads"); same_program(w.prog, q.prog); q.resolve();
  vm_t vm(q.prog); nsym_check(vm.call_init(), "globals are initialised"); hval h; h_int(h, a); result r = run(vm, "main", 1, &h); nsym_check(r.is_int((int)want), "a loaded program runs like the original");
}
//@ entry c13_count args=0-6 args1=1,2,7,8,9,15,16,17,32,33,64,65,100,127,128,129,200,255,256,257,300 steps=1000000000 time=60
//@ bounds 29 programs (shared arrays, all constant types, strings up to 5000, names up to 300, 300 string constants, 40 functions), all integer arguments; target object empty, compiled before, or loaded before
//@ bounds string constants up to 24 symbolic bytes; integer literals of 10 symbolic digits; every field of the program object symbolic; strings up to 70000 bytes
//@ bounds write faults: device full after any number of bytes, any of the first 6 block writes, closing, opening
//@ bounds system functions of 0-10 arguments called with 0-10; 1-300 functions, strings, parameters, locals and globals, 1-130 source files, lines to 90000, at boundary counts
//@ outside globals' names (documented as not saved); disks that lose data without reporting it
