// C16: any text at all
#include "common.hpp"
static void host(thread_t &th, int32_t n) { for (int i = 0; i < n; i++) th.get_stack().pop(); th.get_stack().push_int(n); }
static int lines_of(const std::string &s) { int n = 1; for (char c : s) n += c == '\n'; return n; }
static void drive(world &w, vm_t &vm, thread_t *t, int limit) {
  int size = (int)w.prog.size();
  while (t && !t->finished() && limit-- > 0) {
    int pc = t->get_pc(); bool in = pc >= 0 && pc < size && w.prog.function_find(pc) != nullptr;
    nsym_check(in, "a program that compiles runs only its own code"); if (!in) return;
    t->resume(1);
    if (t->has_error()) { thread_error_t e = t->get_error(); using E = thread_error_t;
      nsym_check(e != E::e_bad_opcode && e != E::e_stack_underflow && e != E::e_bad_getv && e != E::e_bad_setv && e != E::e_bad_get_global && e != E::e_bad_set_global && e != E::e_bad_pop, "a program that compiles never runs into an internal fault"); }
  }
}
// compile and, if it compiles, run
static bool whole(const std::string &text, bool opt = true, int limit = 300) {
  world w; w.add("h", 1, host); w.add("v", -1, host);
  source_manager_t s; char *c = new char[text.size() + 1]; memcpy(c, text.data(), text.size()); c[text.size()] = 0;
  bool loaded = s.load_from_string(c); delete[] c;   // the manager has its own copy
  if (!loaded) return false;
  bool ok = false, threw = false; w.err.error = ""; w.err.line = line_t(-9, -9);
  nsym_deadline(5);
  try { ok = w.compile(s, opt); } catch (...) { threw = true; }
  nsym_check(!threw, "compiling any text ends in a program or an error");
  nsym_out(ok);
  if (!ok) {
    nsym_check(!w.err.error.empty(), "a rejected text has an error message");
    nsym_check(w.err.line.file == 0 && w.err.line.line >= 1 && w.err.line.line <= lines_of(text), "the position of an error is inside the text");
    nsym_deadline(0); return false;
  }
  vm_t vm(w.prog); const function_t *in = w.prog.function_find("@init");
  if (in) { thread_t *t = vm.new_thread(*in, 0, nullptr); drive(w, vm, t, limit); if (!t || !t->finished() || t->has_error()) { nsym_deadline(0); return true; } }
  hval h[4]; const value_t *av[4]; for (int i = 0; i < 4; i++) { h_int(h[i], 3 - i); av[i] = h[i].p; }
  for (auto &f : w.prog.functions()) { if (f.name_ == "@init" || f.num_args() > 4) continue; thread_t *t = vm.new_thread(f, f.num_args(), av); nsym_check(t != nullptr, "a thread can be started"); drive(w, vm, t, limit); }
  nsym_deadline(0);
  return true;
}
// ---- tokens in every place --------------------------------------------------------------
static const char *toks[] = {"a", "g", "K", "f", "h", "v", "u", "1", "0", "2.5", "\"s\"", "none", "function", "end", "if", "else", "while", "var", "for", "to", "and", "or", "not", "return", "const", "import",
  "(", ")", "[", "]", ",", "+", "-", "*", "/", "%", ".", "=", "<", ">", "==", "<=", ">=", "\n", "#", "$", "\"", "len", "l", "()"};
static const int NT = sizeof toks / sizeof *toks;
static std::string wrap(int c, const std::string &x) {
  std::string pre = "var g = 2\nconst K = 3\nfunction f(p)\n return p\nend\n";
  std::string fn = "function m(a)\n var l = [1, a]\n var i = 0\n";
  switch (c) {
  case 0: return x + "\n" + pre;
  case 1: return pre + "var x = " + x + "\n";
  case 2: return "const X = " + x + "\n" + pre;
  case 3: return pre + fn + " " + x + "\n return a\nend\n";
  case 4: return pre + fn + " return " + x + "\nend\n";
  case 5: return pre + fn + " l[" + x + "] = 1\n return l\nend\n";
  case 6: return pre + fn + " if (" + x + ")\n  a = 1\n else\n  a = 2\n end\nend\n";
  case 7: return pre + fn + " a " + x + "\n return a\nend\n";
  case 8: return pre + fn + " return f(" + x + ")\nend\n";
  case 9: return pre + fn + " var y = [" + x + "]\n return y[0]\nend\n";
  case 10: return pre + fn + " for (i = 0 to " + x + ")\n  a += 1\n end\nend\n";
  case 11: return pre + "function z(" + x + ")\n return 1\nend\n";
  case 12: return pre + fn + " while (i < 2)\n  i += 1\n  " + x + "\n end\n return i\nend\n";
  case 13: return pre + fn + " if (a)\n  i = 1\n else " + x + "\n  i = 2\n end\n return i\nend\n";
  case 14: return pre + fn + " l" + x + "\n";
  case 15: return pre + "function " + x + "\n return 1\nend\n";
  case 16: return pre + fn + " return a" + x + " + 1\nend\n";
  case 17: return pre + fn + " v(1, " + x + ", 2)\nend\n";
  }
  return x;
}
extern "C" void c16_tokens() {
  int c = nsym_arg(0), n = nsym_arg(1); std::string x;
  for (int i = 0; i < n; i++) { if (i) x += ' '; x += toks[nsym_choose("tok", NT)]; }
  whole(wrap(c, x));
}
//@ entry c16_tokens args=0-17 args1=0,1,2 targs1=0,1,2,3 steps=20000000 time=100 ttime=3000
// three tokens of an expression
extern "C" void c16_exprs() {
  int c = nsym_arg(0); std::string x; static const char *o[] = {"a", "1", "0", "K", "g", "f", "\"s\"", "2.5", "none", "[1]", "l", "(a)", "f(1)", "l[0]", "l.length"}, *op[] = {"+", "-", "*", "/", "%", "<", "==", "and", "or", "=", ".", ","}, *pre[] = {"", "-", "not "};
  x = pre[nsym_tier() ? nsym_choose("p", 3) : 2 * nsym_choose("p", 2)]; x += o[nsym_choose("x", 15)]; x += ' '; x += op[nsym_choose("op", 12)]; x += ' '; x += nsym_tier() ? pre[nsym_choose("q", 3)] : ""; x += o[nsym_choose("y", 15)];
  whole(wrap(c, x), nsym_arg(1));
}
//@ entry c16_exprs args=1,2,4,6,9,10,16 args1=1 targs1=0,1 steps=20000000 time=100 ttime=2000
// ---- any bytes ---------------------------------------------------------------------------------
extern "C" void c16_bytes() {
  int c = nsym_arg(0), n = nsym_arg(1); std::string x(n, 0); nsym_bytes(&x[0], n, "c");
  for (auto &b : x) nsym_assume(b != 0);
  if (nsym_arg(0) < 0) whole(x); else whole(wrap(c, x));
}
//@ entry c16_bytes args=0-17 args1=1 steps=20000000 time=100
//@ entry c16_bytes args=-1 args1=1,2 targs1=1,2,3 steps=20000000 time=100 ttime=2000
//@ entry c16_bytes args=0,3,4,14 args1=2 tier=thorough steps=20000000 ttime=2000
// ---- damaged programs ------------------------------------------------------------------------
static const char *good[] = {
  "# sample\nconst N = 3\nvar t = [N, 2.5, \"x\"]\nfunction fib(n)\n if (n <= 1)\n  return n\n end\n return fib(n - 1) + fib(n - 2)\nend\n",
  "var c\nfunction main(a, b)\n var i = 0\n while (i < N and not (a == b))\n  c = [i, \"s\" + a]\n  i += 1\n end\n for (i = 0 to 2)\n  c[i] = -a % 7\n end\n if (c.length > 1)\n  return c\n else\n  h(c)\n end\nend\nconst N = 1 + 2 * 3\n"};
extern "C" void c16_damage() {
  int k = nsym_arg(0), how = nsym_arg(1), part = nsym_arg(2); std::string s = good[k]; int n = (int)s.size();
  int at = nsym_conc(nsym_range("at", n * part / 6, n * (part + 1) / 6 - 1));
  switch (how) {
  case 0: s = s.substr(0, at); break;                                // cut
  case 1: s.erase(at, 1); break;                                    // a byte lost
  case 2: { unsigned char x = nsym_u8("x"); nsym_assume(x != 0); if (!nsym_tier()) { static const char set[] = " \n\t\r\"#(),.[]=<>+-*/%$@_;azAE019n\x80\xff\x7f\x01{'"; x = (unsigned char)set[nsym_choose("x", sizeof set - 1)]; } s[at] = (char)x; break; }   // a byte changed
  case 3: s.insert(at, 1, s[at]); break;                            // a byte doubled
  case 4: s.insert(at, std::string(" ") + toks[nsym_choose("tok", NT)] + " "); break;   // a token inserted
  case 5: s = s.substr(at); break;                                  // the start lost
  case 6: { size_t e = s.find('\n', at); if (e == std::string::npos) e = n - 1; s = s.substr(0, at) + s.substr(e + 1); break; }  // rest of a line lost
  }
  whole(s, true, 150);
}
//@ entry c16_damage args=0,1 args1=0-6 args2=0-5 steps=20000000 time=100
// ---- size ------------------------------------------------------------------------------------------
extern "C" void c16_big() {
  int k = nsym_arg(0), n = nsym_arg(1); std::string s, r;
  auto rep = [&](const char *x, int m) { std::string o; for (int i = 0; i < m; i++) o += x; return o; };
  char x = (char)nsym_u8("x"); nsym_assume(x == ')' || x == '(' || x == '1' || x == '\n' || x == 0 || x == '"' || x == ',' || x == ']');
  switch (k) {
  case 0: s = "function m(a)\n return " + rep("(", n) + "1" + rep(")", n - 1) + x + "\nend\n"; break;
  case 1: s = "function m(a)\n return " + rep("1 + ", n) + x + "\nend\n"; break;
  case 2: s = "function m(" + rep("a, ", n) + "b" + x + "\n return 1\nend\n"; break;
  case 3: s = "function m(a)\n" + rep(" if (a)\n", n) + x + rep(" end\n", n) + "end\n"; break;
  case 4: s = "function m(a)\n return [" + rep("1, ", n) + "2" + x + "\nend\n"; break;
  case 5: s = "function m(a)\n return \"" + rep("y", n) + "\"" + x + "\nend\n"; break;
  case 6: s = "function m" + rep("y", n) + "(a)\n return u" + rep("y", n) + x + "\nend\n"; break;
  case 7: s = rep("\n", n) + "function m(a)\n return 1" + x + "\nend\n"; break;
  case 8: s = "function m(a)\n return " + rep("-", n) + "a" + x + "\nend\n"; break;
  case 9: s = "function m(a)\n return " + rep("9", n) + x + "\nend\n"; break;
  case 10: s = "var q = \"" + rep("y", n) + x + "\nfunction m()\n return " + rep("y", n) + "\nend\n"; break;
  case 11: s = "function m(a)\n return v(" + rep("a, ", n) + "2" + x + "\nend\n"; break;
  }
  whole(s);
}
//@ entry c16_big args=0-11 args1=40,300 targs1=40,300,1500 steps=300000000 time=100
// ---- long names, strings and literals in every message -------------------------------------------
extern "C" void c16_names() {
  int k = nsym_arg(0), n = nsym_arg(1); char x = (char)nsym_u8("x"); nsym_assume(x == 'a' || x == 'Z' || x == '_' || x == '9');
  std::string y = "u" + std::string(n - 2, 'y') + x, f = "function m(a)\n var l = [1]\n ", e = "\n return 1\nend\n", s;
  switch (k) {
  case 0: s = f + "return " + y + e; break;
  case 1: s = f + y + " = 1" + e; break;
  case 2: s = f + y + "(1)" + e; break;
  case 3: s = f + "l = " + y + "(1)" + e; break;
  case 4: s = f + y + "[0] = 1" + e; break;
  case 5: s = f + "l = " + y + "[0]" + e; break;
  case 6: s = f + y + ".b = 1" + e; break;
  case 7: s = f + "l = " + y + ".length" + e; break;
  case 8: s = f + "var " + y + " = 1\n var " + y + " = 2" + e; break;
  case 9: s = f + y + " += 1" + e; break;
  case 10: s = f + y + " " + y + e; break;
  case 11: s = f + "l " + y + e; break;
  case 12: s = f + "return 1 " + y + e; break;
  case 13: s = f + "return 1 \"" + y + "\"" + e; break;
  case 14: s = "const " + y + "\n" + f + e; break;
  case 15: s = "const " + y + " = 1\n" + f + y + " = 2" + e; break;
  case 16: s = "const " + y + " = " + y + "\n" + f + e; break;
  case 17: s = "function " + y + "(a)\n return a\nend\n" + f + "return " + y + "(1, 2)" + e; break;
  case 18: s = "function " + y + "(a)\n return a\nend\n" + f + "return " + y + "()" + e; break;
  case 19: s = "function " + y + "(a)\n return a\nend\nfunction " + y + "(b)\n return b\nend\n" + f + e; break;
  case 20: s = "var " + y + " = 1\nvar " + y + " = 1\n" + f + e; break;
  case 21: s = "import \"" + y + "\"\n" + f + e; break;
  case 22: s = "function m(" + y + ", " + y + ")\n return 1\nend\n"; break;
  case 23: s = f + "for (" + y + " = 0 to 2)\n end" + e; break;
  case 24: s = y + "\n" + f + e; break;
  case 25: s = f + "return \"" + y + e; break;
  case 26: s = "const a = 1\nfunction m()\n var " + y + " = 1\n return " + y + " + b" + y + "\nend\n"; break;
  case 27: s = f + "h(1, " + y + ")\n" + y + ".z.y = 1" + e; break;
  }
  nsym_check(!whole(s), "a text with a fault is rejected");
}
//@ entry c16_names args=0-27 args1=3,300,980,1030,5000 steps=300000000 time=100
//@ bounds up to 2 (thorough 3) tokens out of 50 in each of 18 syntactic places; every pair of 15 operands under 12 operators with prefixes in 7 places (thorough: optimised and not); any byte in 18 places, any text of up to 2 (thorough 3) bytes
//@ bounds two programs cut, or with a byte lost, doubled, changed to any of 40 representative values (thorough: any value) or a token inserted, at any position; nesting, lists, names and literals up to 300 (thorough 1500)
//@ bounds names and strings of up to 5000 characters in each of 28 faulty programs
//@ outside nesting deep enough to exhaust the host's own stack
