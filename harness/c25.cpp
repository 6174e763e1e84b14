// C25: the command line tools
#include "deep.hpp"
#include "stdio_stub.hpp"
#define main driver_main
#include "driver/driver.cpp"
#undef main
#undef printf
//@ with c25_comp.inc.cpp
int comp_main(int argc, char **argv);
using namespace ref;
static FILE *f_in, *f_out, *f_err;
FILE *h_stdin() { return f_in; } FILE *h_stdout() { return f_out; } FILE *h_stderr() { return f_err; }
int h_printf(const char *f, ...) { static char b[8192]; va_list a; va_start(a, f); int r = vsnprintf(b, sizeof b, f, a); va_end(a); fwrite(b, 1, r, f_out); return r; }
static const char *OUT = "the driver prints what the script writes, in order, and then its result", *ST = "the exit status tells success from each kind of failure", *IN = "a script reads the input byte by byte and line by line", *MSG = "a failure is explained on the error stream", *CO = "the compiler tool writes exactly what was asked for";
struct ran { int code; std::string out, err; };
static std::string slurp(const char *p, bool *there = nullptr) { std::string s; FILE *f = fopen(p, "rb"); if (there) *there = f != nullptr; if (!f) return s; for (;;) { char b[256]; size_t n = fread(b, 1, sizeof b, f); if (!n) break; s.append(b, n); } fclose(f); return s; }
static ran go(int (*m)(int, char **), std::vector<std::string> args, const std::string &input) {
  nsym_file_put(".in", input.data(), input.size()); f_in = fopen(".in", "rb"); f_out = fopen(".out", "wb"); f_err = fopen(".err", "wb"); args.insert(args.begin(), "tool");
  std::vector<std::vector<char>> keep; std::vector<char *> av; for (auto &a : args) { keep.emplace_back(a.begin(), a.end()); keep.back().push_back(0); } for (auto &k : keep) av.push_back(k.data()); av.push_back(nullptr);
  ran r; try { r.code = m((int)args.size(), av.data()); } catch (const h_exit_t &e) { r.code = e.code; } r.code &= 255;
  fflush(nullptr); fclose(f_in); fclose(f_out); fclose(f_err); r.out = slurp(".out"); r.err = slurp(".err"); nsym_out(r.code); nsym_out((int)r.out.size()); return r;
}
static ran script(const std::string &src, const std::string &input = "") { nsym_note(src.c_str()); nsym_file_put("s.nano", src.data(), src.size()); return go(driver_main, {"s.nano"}, input); }
static int eqs(const std::string &a, const std::string &b) { if (a.size() != b.size()) return 0; int d = 0; for (size_t k = 0; k < a.size(); k++) d |= a[k] ^ b[k]; return d == 0; }
// ---- input -----------------------------------------------------------------------------------
extern "C" void c25_getc() {
  int n = nsym_arg(0); unsigned char b[8]; nsym_bytes(b, n, "input"); std::string in((char *)b, n), want;
  ran r = script("function main()\n var n = 0\n var s\n while (n < " + std::to_string(n + 2) + ")\n  var c = getc()\n  if (c < 0)\n   puts(\"eof\")\n   if (not (c == 0 - 1))\n    return 99\n   end\n  else\n   putc(c)\n  end\n  n = n + 1\n end\n return n\nend\n", in);
  want = in + "eof\neof\nexit: " + std::to_string(n + 2) + "\n"; nsym_check(r.code == 0, ST); nsym_check(eqs(r.out, want), IN);
}
//@ entry c25_getc args=0-4
extern "C" void c25_gets() {
  int n = nsym_arg(0); unsigned char b[8]; nsym_bytes(b, n, "input"); std::string in, want; for (int i = 0; i < n; i++) { nsym_assume(b[i] != 0); in += (char)b[i]; }
  ran r = script("function main()\n puts(\"<\" + gets() + \">\")\n puts(\"<\" + gets() + \">\")\n puts(\"<\" + gets() + \">\")\n return 0\nend\n", in);
  size_t p = 0; for (int k = 0; k < 3; k++) { want += '<'; while (p < in.size() && in[p] != '\n') want += in[p++]; if (p < in.size()) p++; want += ">\n"; } want += "exit: 0\n";
  nsym_check(r.code == 0, ST); nsym_check(eqs(r.out, want), IN);
}
//@ entry c25_gets args=0-5
// lines longer than the buffer come in pieces; a script can mix both ways of reading
extern "C" void c25_long() {
  int n = nsym_arg(0); char x = (char)nsym_u8("x"); nsym_assume((x != 0) & (x != '\n')); std::string line(n, 'q'); if (n) line[n / 2] = x; int nl = nsym_choose("newline", 2); std::string in = "z" + line + (nl ? "\nnext\n" : "");
  ran r = script("function main()\n putc(getc())\n puts(\"\")\n puts(gets())\n puts(gets())\n puts(gets())\n return len(gets())\nend\n", in), want; std::string w = "z\n", rest = in.substr(1); size_t p = 0; int last = 0;
  for (int k = 0; k < 4; k++) { std::string s; while (p < rest.size() && s.size() < 79) { char c = rest[p++]; if (c == '\n') break; s += c; } if (k < 3) w += s + "\n"; else last = (int)s.size(); }
  nsym_check(r.code == 0 && eqs(r.out, w + "exit: " + std::to_string(last) + "\n"), IN);
}
//@ entry c25_long args=0,1,40,77,78,79,80,81,157,158,159,200
// ---- output -----------------------------------------------------------------------------------
extern "C" void c25_result() {
  int k = nsym_arg(0); std::string e, w; 
  switch (k) { case 0: { unsigned char d[3]; nsym_bytes(d, 3, "digit"); std::string t; for (int i = 0; i < 3; i++) { nsym_assume((d[i] >= '0') & (d[i] <= '9')); if (i == 0) nsym_assume(d[0] != '0'); t += (char)d[i]; } e = t; w = t + "\n"; break; }
    case 1: { unsigned char d[4]; nsym_bytes(d, 4, "char"); std::string t; for (int i = 0; i < 4; i++) { nsym_assume((d[i] != 0) & (d[i] != '"') & (d[i] != '\n') & (d[i] != '\\')); t += (char)d[i]; } e = "\"" + t + "\""; w = "\"" + t + "\"\n"; break; }
    case 2: e = "[1, 2]"; w = "array\n"; break; case 3: e = "2.5"; w = "2.500000\n"; break; case 4: e = "main"; w = "function\n"; break; case 5: e = "none"; w = "none\n\n"; break; case 6: e = "0 - 2147483647"; w = "-2147483647\n"; break; case 7: e = "\"\""; w = "\"\"\n"; break; case 8: e = "\"%d%s%n\""; w = "\"%d%s%n\"\n"; break; case 9: e = "0.0 - 1.5"; w = "-1.500000\n"; break; }
  ran r = script("function main()\n puts(\"before\")\n print(\"100%s\")\n putc(65)\n putc(321)\n putc(10)\n return " + e + "\nend\n"); nsym_check(r.code == 0, ST); nsym_check(eqs(r.out, "before\n100%s\nAA\nexit: " + w), OUT);
}
//@ entry c25_result args=0-9
extern "C" void c25_text() {
  int n = nsym_arg(0), which = nsym_choose("which", 2); std::string t; for (int i = 0; i < n; i++) { unsigned char c = nsym_u8("c"); nsym_assume((c != 0) & (c != '"') & (c != '\n') & (c != '\\')); t += (char)c; }
  ran r = script(std::string("function main()\n ") + (which ? "print" : "puts") + "(\"" + t + "\" + \"|\")\n puts(\"" + t + "\")\nend\n"); nsym_check(r.code == 0 && eqs(r.out, t + "|\n" + t + "\nexit: 0\n"), OUT);
}
//@ entry c25_text args=0-4
// ---- what happens when it does not work --------------------------------------------------------
extern "C" void c25_fail() {
  int k = nsym_arg(0); std::string src = "function main()\n puts(\"ran\")\n return 1\nend\n"; std::vector<std::string> av = {"s.nano"}; int code = 0; std::string out, err; bool mentions = true;
  switch (k) {
  case 0: av = {}; code = 255; out = ""; break;
  case 1: av = {"nothere.nano"}; code = 254; err = "nothere.nano"; break;
  case 2: av = {"s.nano", "nothere.nano"}; code = 254; err = "nothere.nano"; break;
  case 3: src = "function main()\n return 1 +\nend\n"; code = 1; err = "line:"; break;
  case 4: src = "function main()\n\n return zz\nend\n"; code = 1; err = "file 0, line:3 - "; break;
  case 5: src = "function mine()\n puts(\"ran\")\nend\n"; code = 252; err = "main"; break;
  case 6: src = "var z = 0\nvar g = 1 / z\nfunction main()\n puts(\"ran\")\nend\n"; code = 251; err = "@init"; break;
  case 7: src = "function main()\n puts(\"ran\")\n var x = none + 1\n puts(\"not\")\nend\n"; code = 250; out = "ran\n"; break;
  case 8: src = "function main()\n putc(\"x\")\n puts(\"not\")\nend\n"; code = 250; break;
  case 9: src = "function main()\n puts(1)\n puts(\"not\")\nend\n"; code = 250; break;
  case 10: src = "function main(a)\n puts(\"not\")\nend\n"; code = 250; break;
  case 11: src = ""; code = 254; err = "s.nano"; break;
  case 12: src = "function main()\n print(2.5)\n puts(\"not\")\nend\n"; code = 250; break;
  case 13: src = "function main()\n puts()\nend\n"; code = 1; err = "file 0, line:2 - "; break;
  case 14: src = "function main()\n puts(\"x\", \"y\")\nend\n"; code = 1; err = "file 0, line:2 - "; break;
  case 15: av = {"s.nano", "t.nano"}; { std::string t = "\n\nfunction f()\n return 3 +\nend\n"; nsym_file_put("t.nano", t.data(), t.size()); } code = 1; err = "file 1, line:"; break;
  case 16: src = "import \"nowhere.nano\"\n" + src; code = 1; err = "nowhere"; break;
  case 17: src = "function main()\n putc(none)\nend\n"; code = 250; break;
  }
  nsym_file_put("s.nano", src.data(), src.size()); ran r = go(driver_main, av, "input\n"); nsym_check(r.code == code, ST); nsym_check(eqs(r.out, out), OUT); nsym_check(r.err.find(err) != std::string::npos, MSG); if (code != 250) nsym_check(!r.err.empty(), MSG);
}
//@ entry c25_fail args=0-17
// several files make one program; built-ins and wait are there; whatever main computes is reported
extern "C" void c25_files() {
  int order = nsym_choose("order", 2); char d = (char)nsym_u8("d"); nsym_assume((d >= '0') & (d <= '9')); std::string a = "var g = 4\nfunction helper(x)\n return x + g\nend\n", b = std::string("function main()\n wait(1)\n return helper(abs(0 - ") + d + ")) + len(\"abc\")\nend\n";
  nsym_file_put("a.nano", a.data(), a.size()); nsym_file_put("b.nano", b.data(), b.size()); ran r = order ? go(driver_main, {"a.nano", "b.nano"}, "") : go(driver_main, {"b.nano", "a.nano"}, ""); int v = d - '0' + 7; std::string w = "exit: "; if (v >= 10) w += (char)('0' + v / 10); w += (char)('0' + v % 10); nsym_check(r.code == 0 && eqs(r.out, w + "\n"), OUT);
}
//@ entry c25_files
extern "C" void c25_rand() {
  int n = nsym_arg(0); ran r = script("function main()\n var n = 0\n var last = 0 - 1\n while (n < " + std::to_string(n) + ")\n  var x = rand()\n  if (x < 0)\n   return \"negative\"\n  end\n  if (x > 8388607)\n   return \"large\"\n  end\n  if (x == last)\n   return \"stuck\"\n  end\n  last = x\n  n = n + 1\n end\n return n\nend\n"); nsym_check(r.code == 0 && eqs(r.out, "exit: " + std::to_string(n) + "\n"), OUT);
}
//@ entry c25_rand args=50
// ---- the compiler tool --------------------------------------------------------------------------
static std::string dis(program_t &p) { FILE *f = fopen("want.dis", "wb"); disassembler_t d; d.dump(p, f); fclose(f); return slurp("want.dis"); }
extern "C" void c25_comp() {
  int k = nsym_arg(0), opts = nsym_choose("options", 16); Prog p = share_prog(k); std::string src = "function t(x)\n return x\nend\nfunction len(x)\n return 1\nend\nfunction new_array(x)\n return x\nend\nfunction more()\n return 1 + 2 * 3\nend\n" + text(p); nsym_file_put("c.nano", src.data(), src.size()); std::vector<std::string> av = {"c.nano"}; if (opts & 1) av.push_back("-n"); if (opts & 2) av.push_back("-a"); if (opts & 4) av.push_back("-d"); if (opts & 8) av.push_back("-b");
  ran r = go(comp_main, av, ""); nsym_check(r.code == 0 && r.err.empty() && r.out.empty(), ST);
  source_manager_t s; s.load("c.nano"); program_t q; nano_t n(q); n.optimize = !(opts & 1); error_t e; nsym_check(n.build(s, e), "a valid script is accepted by the compiler"); bool a, d, b; std::string fa = slurp("c.nano.ast", &a), fd = slurp("c.nano.dis", &d), fb = slurp("c.nano.bin", &b);
  nsym_check(a == !!(opts & 2) && d == !!(opts & 4) && b == !!(opts & 8), CO); if (opts & 8) nsym_check(eqs(fb, std::string((const char *)q.data(), q.size())), CO); if (opts & 4) nsym_check(eqs(fd, dis(q)), CO);
  if (opts & 2) { FILE *f = fopen("want.ast", "wb"); n.ast().dump(f); fclose(f); nsym_check(!fa.empty() && eqs(fa, slurp("want.ast")), CO); for (auto &fn : q.functions()) if (fn.name_[0] != '@') nsym_check(fa.find(fn.name_) != std::string::npos, CO); }
}
//@ entry c25_comp args=0-17
// any length of text with any character anywhere in it; any number given to putc
extern "C" void c25_longtext() {
  int n = nsym_arg(0), at = nsym_choose("at", 3), how = nsym_choose("how", 3); std::string t; for (int i = 0; i < n; i++) t += (char)('a' + i % 26); char c = (char)nsym_u8("c"); nsym_assume((c != 0) & (c != '"') & (c != '\n') & (c != '\\')); int k = at == 0 ? 0 : at == 1 ? n / 2 : n - 1; t[k] = c; if (k + 1 < n) t[k + 1] = 's';
  std::string w = "<\n" + t + "\n>\nexit: "; ran r = script(std::string("function main()\n puts(\"<\")\n ") + (how == 2 ? "" : how ? "print" : "puts") + (how == 2 ? "puts(\">\")\n return " : "(") + "\"" + t.substr(0, n / 3) + "\" + \"" + t.substr(n / 3) + "\"" + (how == 2 ? "" : ")\n puts(\">\")\n return 7") + "\nend\n");
  nsym_check(r.code == 0, ST); nsym_check(eqs(r.out, how == 2 ? "<\n>\nexit: \"" + t + "\"\n" : w + "7\n"), OUT);
}
//@ entry c25_longtext args=1,2,3,31,79,80,127,128,200,255,256,257,300,1000,2000 steps=400000000
extern "C" void c25_putc() {
  static const char *k[] = {"c", "c - 256", "c - 300", "0 - c", "c * 256", "c * 65536 + 7", "c * 16777216 + c", "c + 2147483392", "0 - 2147483647 - c", "c * 1000"}; int q = nsym_arg(0); unsigned c = nsym_u8("in"); std::string in(1, (char)c);
  uint32_t v = q == 0 ? c : q == 1 ? c - 256 : q == 2 ? c - 300 : q == 3 ? 0 - c : q == 4 ? c * 256 : q == 5 ? c * 65536 + 7 : q == 6 ? c * 16777216u + c : q == 7 ? c + 2147483392u : q == 8 ? 0u - 2147483647u - c : c * 1000;
  ran r = script(std::string("function main()\n var c = getc()\n puts(\"<\")\n putc(") + k[q] + ")\n puts(\">\")\n return 3\nend\n", in); std::string w = "<\n"; w += (char)v; w += ">\nexit: 3\n"; nsym_check(r.code == 0, ST); nsym_check(eqs(r.out, w), OUT);
}
//@ entry c25_putc args=0-9
// the options of the compiler tool in any order, among several files
extern "C" void c25_order() {
  int k = nsym_arg(0), files = nsym_choose("files", 3), where = nsym_choose("where", 3); std::vector<std::string> o = {"-n", "-a", "-d", "-b"}, pick; int drop = nsym_choose("drop", 5); for (int i = 0, q = k; i < 4; i++) { int j = q % (4 - i); q /= 4 - i; if (o[j] != (drop < 4 ? std::string("-") + "nadb"[drop] : "")) pick.push_back(o[j]); o.erase(o.begin() + j); }
  std::string src = "const K = 3\nvar g = 1 + K\nfunction main(a)\n if (1 == 2)\n  return g\n end\n return 2 * 3 + a\n g = 4\nend\n", more = "function more()\n return \"text\"\nend\n", last = "var z\nfunction most(q)\n z = [q]\nend\n"; nsym_file_put("c.nano", src.data(), src.size()); nsym_file_put("d.nano", more.data(), more.size()); nsym_file_put("e.nano", last.data(), last.size());
  std::vector<std::string> av = pick; auto put = [&](const char *f) { av.insert(where == 0 ? av.begin() : where == 1 ? av.end() : av.begin() + av.size() / 2, f); }; if (files > 1) put("e.nano"); if (files > 0 && where) { put("d.nano"); } else if (files > 0) av.insert(av.begin(), "d.nano"); av.insert(av.begin(), "c.nano");
  std::vector<std::string> order; for (auto &a : av) if (a[0] != '-') order.push_back(a); ran r = go(comp_main, av, ""); nsym_check(r.code == 0 && r.err.empty() && r.out.empty(), ST); auto has = [&](const char *x) { for (auto &a : av) if (a == x) return true; return false; };
  source_manager_t s; for (auto &f : order) s.load(f.c_str()); program_t q; nano_t n(q); n.optimize = !has("-n"); error_t e; nsym_check(n.build(s, e), "a valid script is accepted by the compiler"); bool a, d, b; std::string fa = slurp("c.nano.ast", &a), fd = slurp("c.nano.dis", &d), fb = slurp("c.nano.bin", &b);
  nsym_check(a == has("-a") && d == has("-d") && b == has("-b"), CO); if (b) nsym_check(eqs(fb, std::string((const char *)q.data(), q.size())), CO); if (d) nsym_check(eqs(fd, dis(q)), CO); if (a) { FILE *f = fopen("want.ast", "wb"); n.ast().dump(f); fclose(f); nsym_check(eqs(fa, slurp("want.ast")), CO); }
  for (auto &x : order) if (x != "c.nano") { bool h; for (const char *t : {".ast", ".dis", ".bin"}) { slurp((x + t).c_str(), &h); nsym_check(!h, CO); } }
}
//@ entry c25_order args=0-23
extern "C" void c25_compfail() {
  int k = nsym_arg(0); std::string src = "function main()\n return 1\nend\n"; std::vector<std::string> av = {"c.nano", "-d"}; int code = 1; 
  switch (k) { case 0: av = {}; code = 255; break; case 1: av = {"nothere"}; code = 254; break; case 2: src = "function main()\n return zz\nend\n"; break; case 3: src = "function f(\n"; break; case 4: av = {"-d"}; code = 1; break; case 5: { std::string dir; for (int i = 0; i < 6; i++) dir += std::string(200, (char)('a' + i)) + "/"; nsym_file_put((dir + "c.nano").c_str(), src.data(), src.size()); av = {dir + "c.nano", "-d", "-b"}; code = 0; break; } case 6: av = {"c.nano", "-x"}; code = 0; break; }
  nsym_file_put("c.nano", src.data(), src.size()); ran r = go(comp_main, av, ""); nsym_check(r.code == code, ST); if (k == 0) nsym_check(r.out.find("usage") != std::string::npos, MSG); else if (code) nsym_check(!r.err.empty(), MSG); if (k == 5) { bool d; std::string b = slurp((av[0] + ".bin").c_str(), &d); nsym_check(d && !b.empty(), CO); }
}
//@ entry c25_compfail args=0-6
//@ bounds texts of up to 2000 characters with one free; putc of ten expressions of a free byte; the options of the compiler tool in all orders and subsets of at least three, among one to three files
//@ bounds all inputs of up to four (getc) or five (gets) bytes; input lines up to 200 characters around the 79-character pieces, one character free; every kind of result, integers of three free digits, strings of four free characters; 18 kinds of failure; 18 programs under all option combinations of the compiler tool
//@ outside the SDL driver (SDL is not installed here) and the IDE example; input with NUL bytes read by gets; the text of messages beyond the place they name
