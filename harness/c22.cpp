// C22: sources, their lines, and imports
#include "ref.hpp"
using namespace ref;
static const char *LN = "get_line gives the text of the line", *ONE = "each file is loaded once", *DIF = "different files are not confused", *REL = "an import is relative to the importing file", *MISS = "a missing or empty file is an error";
// ---- lines ----------------------------------------------------------------------------------
static int same_text(const std::string &a, const std::string &b) { if (a.size() != b.size()) return 0; int d = 0; for (size_t i = 0; i < a.size(); i++) d |= a[i] ^ b[i]; return d == 0; }
static void lines_of(const std::string &s, const source_t &src, source_manager_t *m, int file) {
  std::vector<std::string> L(1); for (char c : s) { L.back() += c; if (c == '\n') L.emplace_back(); }
  for (size_t i = 0; i < L.size() + 2; i++) {
    std::string o = "before"; bool ok = src.get_line((uint32_t)i + 1, o); nsym_check(ok == (i < L.size()), LN);
    if (i < L.size()) nsym_check(same_text(o, L[i]), LN);
    if (m) nsym_check(same_text(m->get_line(line_t(file, (int)i + 1)), i < L.size() ? L[i] : ""), LN);
  }
  nsym_out((int)L.size());
}
extern "C" void c22_lines() {
  int n = nsym_arg(0), how = nsym_arg(1); unsigned char b[16]; nsym_bytes(b, n, "text"); std::string s; for (int i = 0; i < n; i++) { nsym_assume(b[i] != 0); s += (char)b[i]; }
  source_manager_t m; 
  if (how == 0) { nsym_check(m.load_from_string(s.c_str()), LN); lines_of(s, m.get_source(0), &m, 0); }
  else if (how == 1) { m.load_from_string("first\nsource\n\n"); nsym_file_put("x.n", s.data(), s.size()); nsym_check(m.load("x.n"), LN); m.load_from_string("last\n"); nsym_check(m.count() == 3, ONE); lines_of(s, m.get_source(1), &m, 1); nsym_check(m.get_line(line_t(0, 2)) == "source\n" && m.get_line(line_t(2, 1)) == "last\n", DIF); nsym_check(m.get_source(1).file_path() == "x.n", ONE); }
  else { source_t t; t.load_from_string("old\ntext\nof many\n\nlines"); nsym_check(t.load_from_string(s.c_str()), LN); lines_of(s, t, nullptr, 0); }
}
//@ entry c22_lines args=1-7 args1=0-2 targs=1-10
extern "C" void c22_long() {
  int n = nsym_arg(0), w = nsym_arg(1), fin = nsym_choose("final", 2), at = nsym_choose("at", 6); std::string s; std::vector<std::string> L;
  for (int i = 0; i < n; i++) { std::string l = std::to_string(i) + std::string(i % (w + 1), (char)('a' + i % 26)); if (i + 1 < n || fin) l += '\n'; L.push_back(l); s += l; }
  if (fin) L.push_back("");
  source_manager_t m; nsym_file_put("long.n", s.data(), s.size()); nsym_check(m.load("long.n"), LN); int pos[] = {0, 1, n / 2, n - 2, n - 1, (int)L.size() - 1}; int k = pos[at]; if (k < 0 || k >= (int)L.size()) return;
  std::string o; nsym_check(m.get_source(0).get_line(k + 1, o) && o == L[k], LN); nsym_check(m.get_line(line_t(0, k + 1)) == L[k], LN); nsym_check(!m.get_source(0).get_line((int)L.size() + 1, o), LN);
}
//@ entry c22_long args=1,2,130,300,3000 args1=0,30,300 steps=400000000
// ---- paths ------------------------------------------------------------------------------------
static std::string shape(int k, const char *c) {
  std::string s; auto C = [&](int i) { s += c[i]; };
  switch (k) { case 0: C(0); C(1); break; case 1: C(0); s += '/'; C(1); break; case 2: C(0); s += '\\'; C(1); break; case 3: C(0); C(1); s += '.'; C(2); break; case 4: C(0); C(1); C(2); break; case 5: s += '.'; s += '/'; C(0); C(1); break; case 6: C(0); s += "/../"; C(0); s += '/'; C(1); break; case 7: C(0); s += "//"; C(1); break; case 8: s += "../"; C(0); C(1); break; case 9: s += ".."; C(0); C(1); break; case 10: s += "."; C(0); C(1); break; }
  return s;
}
static int low(int c) { return (c >= 'A') & (c <= 'Z') ? c + 32 : c; }
extern "C" void c22_paths() {
  int ka = nsym_arg(0), kb = nsym_arg(1); char c[6]; for (auto &x : c) { x = (char)nsym_u8("c"); nsym_assume((x != 0) & (x != '/') & (x != '\\') & (x != '.')); }
  std::string A = shape(ka, c), B = shape(kb, c + 3); if (ka == 8 || kb == 8) return;
  // what the path means: the directory, and the name
  auto norm = [](int k, const char *q) { std::string s; switch (k) { case 5: k = 0; break; case 6: case 7: case 2: k = 1; break; } s = shape(k, q); return s; };
  std::string na = norm(ka, c), nb = norm(kb, c + 3); int eq = na.size() == nb.size(); for (size_t i = 0; i < na.size() && i < nb.size(); i++) eq &= low((unsigned char)na[i]) == low((unsigned char)nb[i]);
  // the same spelling would overwrite the file: fine, the text is then B's
  std::string ta = "function a()\nend\n", tb = "function b()\n\nend\n";
  // "x\y" and "x/y" are two files here unless loaded as one
  nsym_file_put(A.c_str(), ta.data(), ta.size()); nsym_file_put(B.c_str(), tb.data(), tb.size());
  source_manager_t m; nsym_check(m.load(A.c_str()), ONE); nsym_check(m.count() == 1, ONE); nsym_check(m.load(B.c_str()), ONE); nsym_out(m.count());
  nsym_check(m.count() == (eq ? 1 : 2), eq ? ONE : DIF); nsym_check(m.get_source(0).file_path() == A, DIF);
  if (m.count() == 2) nsym_check(std::string(m.get_source(1).data()) == tb && m.get_source(1).file_path() == B, DIF);
  nsym_check(m.load(A.c_str()) && m.load(B.c_str()) && m.count() == (eq ? 1 : 2), ONE);
}
//@ entry c22_paths args=0-7,9,10 args1=0-5,7
// letters of long paths that differ in one place
extern "C" void c22_longpath() {
  int n = nsym_arg(0), k = nsym_choose("k", 5); std::string a = "dir/" + std::string(n, 'q') + ".nano", b = a; char x = (char)nsym_u8("x"); nsym_assume((x != 0) & (x != '/') & (x != '\\') & (x != '.'));
  switch (k) { case 0: b[4] = x; break; case 1: b[b.size() - 1] = x; break; case 2: b[a.size() / 2] = x; break; case 3: b += x; break; case 4: b.insert(4, 1, x); break; }
  std::string ta = "var a\n", tb = "var b\n"; nsym_file_put(b.c_str(), tb.data(), tb.size()); nsym_file_put(a.c_str(), ta.data(), ta.size()); bool eq = k < 3 && low(x) == low(a[k == 0 ? 4 : k == 1 ? a.size() - 1 : a.size() / 2]);
  source_manager_t m; nsym_check(m.load(a.c_str()) && m.load(b.c_str()), ONE); nsym_check(m.count() == (eq ? 1 : 2), eq ? ONE : DIF); if (m.count() == 2) nsym_check(std::string(m.get_source(1).data()) == tb, DIF);
}
//@ entry c22_longpath args=1,2,20,100
// paths of up to four parts with redundant and odd-looking names
extern "C" void c22_parts() {
  static const char *nm[] = {"A", ".", "..", "", "..x", ".x", "x..", "..."}; int n = nsym_arg(0), abs = nsym_choose("absolute", 2), sep = nsym_choose("separator", 3); char c = (char)nsym_u8("c"), d = (char)nsym_u8("d"); nsym_assume((c >= 'a') & (c <= 'z')); nsym_assume((d >= 'a') & (d <= 'z'));
  int cnt = 0; auto sp = [&] { cnt++; return sep == 0 || (sep == 2 && cnt % 2) ? '/' : '\\'; };
  std::string A, B; std::vector<std::string> out; if (abs) A += sp();
  for (int i = 0; i < n; i++) { int q = i == 0 ? nsym_arg(1) : nsym_choose("part", 8); if (q == 3 && i == 0) return; std::string x = q == 0 ? std::string(1, c) : nm[q]; A += x; A += sp(); if (q == 1 || q == 3) continue; if (q == 2) { if (!out.empty() && out.back() != "..") { out.pop_back(); continue; } if (abs) return; } out.push_back(x); }
  std::string f(1, c); f += ".n"; A += f; int how = nsym_choose("other", 4); std::vector<std::string> o = out; bool babs = abs; std::string g = f;
  switch (how) { case 0: break; case 1: babs = !abs; break; case 2: if (o.empty()) o.push_back("A"); else o.pop_back(); break; case 3: g[0] = d; break; }
  if (babs) B += '/'; for (auto &x : o) { B += x; B += '/'; } B += g; int eq = how == 0 || (how == 3 && c == d);
  std::string ta = "var a\n", tb = "var b\n"; nsym_file_put(A.c_str(), ta.data(), ta.size()); nsym_file_put(B.c_str(), tb.data(), tb.size()); nsym_note(A.c_str()); nsym_note(B.c_str());
  source_manager_t m; bool first = nsym_choose("first", 2); nsym_check(m.load(first ? A.c_str() : B.c_str()) && m.load(first ? B.c_str() : A.c_str()), ONE); nsym_out(m.count()); nsym_check(m.count() == (eq ? 1 : 2), eq ? ONE : DIF);
}
//@ entry c22_parts args=0,1,2 args1=0-7 targs=0,1,2,3 time=60 ttime=300
// an import is looked for beside the importing file, whatever separators its path has
extern "C" void c22_beside() {
  int n = nsym_choose("dirs", 4), abs = nsym_choose("absolute", 2); static const char *dn[] = {"p", "q.r", "p"}; std::string P = abs ? "/" : ""; std::vector<std::string> pre = {P}; if (abs) pre.push_back(""); for (int i = 0; i < n; i++) { P += dn[i]; P += nsym_choose("separator", 2) ? '\\' : '/'; pre.push_back(P); }
  for (auto &d : pre) { int id = d == P ? 7 : 1; std::string t = "function which()\n return " + std::to_string(id) + "\nend\n"; nsym_file_put((d + "l.n").c_str(), t.data(), t.size()); }
  std::string M = P + "main.n", t = "import \"l.n\"\nfunction main()\n return which()\nend\n"; nsym_file_put(M.c_str(), t.data(), t.size()); nsym_note(M.c_str());
  source_manager_t m; nsym_check(m.load(M.c_str()), REL); world w; w.builtins = false; bool ok = w.compile(m); nsym_out(ok); nsym_check(ok, REL); if (!ok) return; vm_t vm(w.prog); vm.call_init(); nsym_check(run(vm, "main").is_int(7), REL); nsym_check(m.count() == 2, ONE);
}
//@ entry c22_beside
// ---- imports -------------------------------------------------------------------------------------
static std::string spell(const std::string &p, int how) {
  std::string o; switch (how) { case 1: for (char c : p) o += c >= 'a' && c <= 'z' ? (char)(c - 32) : c; return o; case 2: for (char c : p) o += c == '/' ? '\\' : c; return o; case 3: return "./" + p; } return p;
}
extern "C" void c22_graph() {
  int lay = nsym_arg(0), again = nsym_arg(1); bool e[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) e[i][j] = i != j ? nsym_choose("edge", 2) : again == 4;
  static const char *path[3][3] = {{"a.n", "b.n", "c.n"}, {"a.n", "d/b.n", "d/e/c.n"}, {"top/a.n", "top/b.n", "top/s/c.n"}};
  static const char *rel[3][3][3] = {{{"a.n", "b.n", "c.n"}, {"a.n", "b.n", "c.n"}, {"a.n", "b.n", "c.n"}}, {{"a.n", "d/b.n", "d/e/c.n"}, {"../a.n", "b.n", "e/c.n"}, {"../../a.n", "../b.n", "c.n"}}, {{"a.n", "b.n", "s/c.n"}, {"a.n", "b.n", "s/c.n"}, {"../a.n", "../b.n", "c.n"}}};
  static const char nm[] = "abc"; bool reach[3] = {true, false, false}; for (int r = 0; r < 3; r++) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (reach[i] && e[i][j]) reach[j] = true;
  std::vector<int> order = {0}; 
  for (int i = 0; i < 3; i++) {
    std::string t; for (int j = 0; j < 3; j++) if (e[i][j]) { t += std::string("import \"") + rel[lay][i][j] + "\"\n"; if (again && again < 4) t += std::string("import \"") + spell(rel[lay][i][j], again) + "\"\n"; }
    t += std::string("function f") + nm[i] + "()\n return " + std::to_string(i + 1) + "\nend\n";
    if (i == 0) { t += "function main()\n var r = 0\n"; for (int j = 0; j < 3; j++) if (reach[j]) t += std::string(" r = r * 10 + f") + nm[j] + "()\n"; t += " return r\nend\n"; }
    nsym_file_put(path[lay][i], t.data(), t.size()); }
  source_manager_t m; nsym_check(m.load(path[lay][0]), REL); world w; w.builtins = false; bool ok = w.compile(m); nsym_out(ok); if (!ok) nsym_note(w.err.error.c_str()); nsym_check(ok, ONE); if (!ok) return;
  int want = 0; for (int j = 0; j < 3; j++) if (reach[j]) want = want * 10 + j + 1; nsym_check(m.count() == reach[0] + reach[1] + reach[2], ONE); vm_t vm(w.prog); vm.call_init(); nsym_check(run(vm, "main").is_int(want), REL);
  for (int j = 0; j < 3; j++) nsym_check(has_fn(w.prog, (std::string("f") + nm[j]).c_str()) == reach[j], REL);
}
//@ entry c22_graph args=0-2 args1=0-4
// the file of that name beside the importing file, not another one
extern "C" void c22_relative() {
  static const char *dirs[] = {"", "x/", "x/y/", "z/"}; int from = nsym_choose("from", 4), k = nsym_choose("import", 4); static const char *imp[] = {"l.n", "y/l.n", "../l.n", "x/l.n"}; static const char *to[4][4] = {{"l.n", 0, 0, "x/l.n"}, {"x/l.n", "x/y/l.n", "l.n", 0}, {"x/y/l.n", 0, "x/l.n", 0}, {"z/l.n", 0, "l.n", 0}};
  for (int i = 0; i < 4; i++) { std::string t = "function which()\n return " + std::to_string(i) + "\nend\n"; nsym_file_put((std::string(dirs[i]) + "l.n").c_str(), t.data(), t.size()); }
  std::string p = std::string(dirs[from]) + "main.n", t = std::string("import \"") + imp[k] + "\"\nfunction main()\n return which()\nend\n"; nsym_file_put(p.c_str(), t.data(), t.size());
  source_manager_t m; nsym_check(m.load(p.c_str()), REL); world w; w.builtins = false; bool ok = w.compile(m); nsym_out(ok); const char *want = to[from][k];
  if (!want) { nsym_check(!ok, MISS); if (!ok) nsym_check(w.err.line.file == 0 && w.err.line.line == 1, MISS); return; }
  nsym_check(ok, REL); if (!ok) return; int id = 0; for (int i = 0; i < 4; i++) if (std::string(dirs[i]) + "l.n" == want) id = i; vm_t vm(w.prog); vm.call_init(); nsym_check(run(vm, "main").is_int(id), REL); nsym_check(m.count() == 2, ONE);
}
//@ entry c22_relative
extern "C" void c22_missing() {
  int k = nsym_choose("k", 6), n = nsym_choose("lines", 4), second = nsym_choose("second", 2); int files = nsym_open_files(); source_manager_t m;
  nsym_file_put("empty.n", "", 0); nsym_file_put("ok.n", "var q\n", 6);
  nsym_check(!m.load("nothere.n") && !m.load("empty.n") && !m.load("") && !m.load_from_string("") && m.count() == 0, MISS);
  std::string s; for (int i = 0; i < n; i++) s += i & 1 ? "import \"ok.n\"\n" : "\n"; static const char *bad[] = {"import \"nothere.n\"\n", "import \"empty.n\"\n", "import \"\"\n", "import \"ok.n.x\"\n", "import \"dir/ok.n\"\n", "import \"ok\"\n"}; s += bad[k]; s += "function f()\nend\n";
  if (second) m.load_from_string("function g()\nend\n"); m.load_from_string(s.c_str()); world w; w.builtins = false; bool ok = w.compile(m); nsym_out(ok); nsym_check(!ok, MISS);
  if (!ok) { nsym_check(w.err.line.file == second && w.err.line.line == n + 1 && !w.err.error.empty(), MISS); } nsym_check(nsym_open_files() == files, "files are closed");
  nsym_check(m.load("ok.n") , MISS);
}
//@ entry c22_missing
// positions inside imported files: compile errors, and lines at run time
extern "C" void c22_positions() {
  int n = nsym_choose("lines", 5), k = nsym_choose("kind", 3), mid = nsym_choose("mid", 2), a = nsym_int("a"); std::string lib; for (int i = 0; i < n; i++) lib += "\n"; lib += "function bad(p)\n var z = 0\n"; lib += k == 0 ? " return undefined_name\n" : k == 1 ? " return p / z\n" : " return ) p\n"; lib += "end\n";
  std::string mn = "import \"lib/mid.n\"\n\nfunction main(p)\n return bad(p)\nend\n", md = mid ? "import \"../lib2.n\"\n" : "import \"deep.n\"\n"; md += "function unused()\n return 1\nend\n"; nsym_file_put("lib/mid.n", md.data(), md.size()); nsym_file_put(mid ? "lib2.n" : "lib/deep.n", lib.data(), lib.size()); nsym_file_put("m.n", mn.data(), mn.size());
  source_manager_t m; m.load_from_string("function other()\n return 2\nend\n"); m.load("m.n"); world w; w.builtins = false; bool ok = w.compile(m); nsym_out(ok); line_t at; nsym_check(m.count() == 4, ONE);
  if (k != 1) { nsym_check(!ok, "an error in an imported file is found"); if (ok) return; at = w.err.line; } else { nsym_check(ok, REL); if (!ok) return; vm_t vm(w.prog); vm.call_init(); hval h[1]; h_int(h[0], a); const value_t *av[] = {h[0].p}; thread_t *t = vm.new_thread(*w.prog.function_find("main"), 1, av); nsym_check(!t->resume(1000) && t->get_error() == thread_error_t::e_bad_divide_by_zero, REL); at = t->get_source_line(); }
  nsym_check(at.file == 3 && at.line == n + 3, "a position names the right file and line"); if (at.file < 0 || at.file >= m.count()) return;
  nsym_check(m.get_line(at) == (k == 0 ? " return undefined_name\n" : k == 1 ? " return p / z\n" : " return ) p\n"), "a position names the right file and line"); const std::string &p = m.get_source(at.file).file_path(); nsym_check(p.find(mid ? "lib2.n" : "deep.n") != std::string::npos, "a position names the right file and line");
}
//@ entry c22_positions
// several sources together, cleared and used again
extern "C" void c22_several() {
  int n = nsym_arg(0), a = nsym_int("a"); source_manager_t m; m.load_from_string("function stale()\nend\n"); m.clear(); nsym_check(m.count() == 0, ONE); std::string call; 
  for (int i = 0; i < n; i++) { std::string s = "function f" + std::to_string(i) + "(p)\n return p + " + std::to_string(i * 7) + "\nend\n"; if (i & 1) { std::string f = "f" + std::to_string(i) + ".n"; nsym_file_put(f.c_str(), s.data(), s.size()); nsym_check(m.load(f.c_str()), ONE); } else nsym_check(m.load_from_string(s.c_str()), ONE); call += (i ? " + f" : "f") + std::to_string(i) + "(p)"; }
  m.load_from_string(("function main(p)\n return " + call + "\nend\n").c_str()); nsym_check(m.count() == n + 1, ONE); world w; w.builtins = false; nsym_check(w.compile(m), DIF); if (!w.ok) return; nsym_check(!has_fn(w.prog, "stale"), DIF); vm_t vm(w.prog); vm.call_init(); hval h[1]; h_int(h[0], a); unsigned want = 0; for (int i = 0; i < n; i++) want += (unsigned)a + i * 7; nsym_check(run(vm, "main", 1, h).is_int((int)want), DIF);
}
//@ entry c22_several args=1,2,5,20,40
// data in imported files: globals and constants of each file, initialised in order of the sources
extern "C" void c22_globals() {
  int a = nsym_range("a", 0, 9); std::string x = std::string("const K = ") + char('0' + nsym_conc(a)) + "\nvar gx = K * 2\nfunction getx()\n return gx\nend\n"; nsym_file_put("x.n", x.data(), x.size()); std::string s = "import \"x.n\"\nimport \"y.n\"\nvar g = 5\nfunction main()\n return [g, K, getx(), gy]\nend\n", y = "import \"x.n\"\nvar gy = g + gx + K\n"; nsym_file_put("y.n", y.data(), y.size());
  source_manager_t m; m.load_from_string(s.c_str()); world w; w.builtins = false; nsym_check(w.compile(m), ONE); if (!w.ok) return; vm_t vm(w.prog); nsym_check(vm.call_init(), REL); result r = run(vm, "main"); if (!r.ok || r.v->array_size() != 4) { nsym_check(0, REL); return; } value_t **v = r.v->array(); nsym_check(v[0]->v == 5 && v[1]->v == a && v[2]->v == 2 * a && v[3]->v == 5 + 3 * a, REL);
}
//@ entry c22_globals
// n imports from one file, or a chain of n imports: positions in any of them
extern "C" void c22_many() {
  int n = nsym_arg(0), chain = nsym_choose("chain", 3), kind = nsym_choose("kind", 2), a = nsym_int("a"), w_ = nsym_choose("which", n < 6 ? n : 6), bad = n < 6 || w_ < 3 ? w_ : n - 1 - (w_ - 3); auto T = [](int x) { return std::to_string(x); };
  auto name = [&](int i) { return (chain == 2 && i % 2 ? "d/f" : "f") + T(i) + ".n"; }; auto to = [&](int from, int i) { bool sub = chain == 2 && from >= 0 && from % 2; return sub ? (i % 2 ? "f" + T(i) + ".n" : "../f" + T(i) + ".n") : name(i); };
  for (int i = 0; i < n; i++) { std::string s; int pre = i % 4; if (chain && i + 1 < n) { s += "import \"" + to(i, i + 1) + "\"\n"; pre++; } if (chain && i) { s += "import \"" + to(i, i - 1) + "\"\n"; pre++; } s += std::string(i % 4, '\n') + "function f" + T(i) + "(p)\n" + (i == bad ? (kind ? " return nothing" + T(i) + "\n" : " return " + T(i) + " / p\n") : " return p + " + T(i) + "\n") + "end\n"; nsym_file_put(name(i).c_str(), s.data(), s.size()); }
  std::string s; for (int i = 0; i < (chain ? 1 : n); i++) s += "import \"" + name(i) + "\"\n"; s += "function main(p)\n return f" + T(bad) + "(p)\nend\n"; nsym_file_put("main.n", s.data(), s.size());
  int line = bad % 4 + 2 + (chain ? (bad + 1 < n) + (bad > 0) : 0);
  source_manager_t m; nsym_check(m.load("main.n"), ONE); world w; w.builtins = false; bool ok = w.compile(m); nsym_check(ok == !kind, REL); nsym_check(m.count() == n + 1, ONE); line_t at; if (ok == (kind != 0)) return;
  if (kind) at = w.err.line; else { vm_t vm(w.prog); nsym_check(vm.call_init(), REL); hval h[1]; h_int(h[0], a); const value_t *av[] = {h[0].p}; thread_t *t = vm.new_thread(*w.prog.function_find("main"), 1, av); t->resume(1000); nsym_check(t->finished() && t->has_error() == (a == 0), REL); if (!t->has_error()) { nsym_check(t->get_return_value()->is_a<val_type_int>() && (bad ? 1 : t->get_return_value()->v == 0), REL); return; } at = t->get_source_line(); }
  nsym_check(at.line == line, "a position names the right file and line"); bool in = at.file >= 0 && at.file < m.count(); nsym_check(in, "a position names the right file and line"); if (!in) return;
  std::string p = m.get_source(at.file).file_path(), e = "f" + T(bad) + ".n"; nsym_check(p.size() >= e.size() && p.compare(p.size() - e.size(), e.size(), e) == 0 && (p.size() == e.size() || p[p.size() - e.size() - 1] == '/'), "a position names the right file and line"); nsym_check(m.get_line(at).find(kind ? "nothing" + T(bad) : T(bad) + " / p") != std::string::npos, LN);
}
//@ entry c22_many args=1,2,3,8,9,17,33,65,90 targs=1,2,3,7,8,9,16,17,31,33,64,65,127,129,150 steps=800000000 time=60 ttime=200
//@ bounds all texts up to 7 bytes (10 thorough) from strings and files; texts up to 3000 lines and lines up to 300; all pairs of paths over 10 shapes with up to three free characters each (any byte but a separator, dot or zero), long paths differing anywhere; all import graphs over three files in three directory layouts with repeated imports in other spellings; 20 sources (40)
//@ bounds paths of up to 2 (thorough 3) directories from eight kinds of name, absolute or not, in three separator styles, against four others; importing files under up to three directories with mixed separators
//@ bounds 1-90 (thorough 150) files imported one by one or in a chain with imports back, in one or two directories, an error in any of six of them
//@ outside '..' above the root directory; texts containing a zero byte; files that are the same through links or through the name of the working directory; a file called 'unknown' next to string sources
