// C18: the disassembler against the machine
#include "deep.hpp"
using namespace ref;
// ---- single instructions -------------------------------------------------------------
struct OP { int op; const char *name; int n; };
static const OP ops[] = {
  {INS_ADD, "INS_ADD", 0}, {INS_SUB, "INS_SUB", 0}, {INS_MUL, "INS_MUL", 0}, {INS_DIV, "INS_DIV", 0}, {INS_MOD, "INS_MOD", 0}, {INS_AND, "INS_AND", 0}, {INS_OR, "INS_OR", 0},
  {INS_NOT, "INS_NOT", 0}, {INS_NEG, "INS_NEG", 0}, {INS_LT, "INS_LT", 0}, {INS_GT, "INS_GT", 0}, {INS_LEQ, "INS_LEQ", 0}, {INS_GEQ, "INS_GEQ", 0}, {INS_EQ, "INS_EQ", 0},
  {INS_SETA, "INS_SETA", 0}, {INS_DEREF, "INS_DEREF", 0}, {INS_NEW_NONE, "INS_NEW_NONE", 0},
  {INS_JMP, "INS_JMP", 1}, {INS_TJMP, "INS_TJMP", 1}, {INS_FJMP, "INS_FJMP", 1}, {INS_RET, "INS_RET", 1}, {INS_POP, "INS_POP", 1}, {INS_NEW_ARY, "INS_NEW_ARY", 1}, {INS_NEW_INT, "INS_NEW_INT", 1},
  {INS_NEW_STR, "INS_NEW_STR", 1}, {INS_NEW_FLT, "INS_NEW_FLT", 1}, {INS_NEW_FUNC, "INS_NEW_FUNC", 1}, {INS_NEW_SCALL, "INS_NEW_SYSCALL", 1}, {INS_GETV, "INS_GETV", 1}, {INS_SETV, "INS_SETV", 1},
  {INS_LOCALS, "INS_LOCALS", 1}, {INS_GLOBALS, "INS_GLOBALS", 1}, {INS_GETG, "INS_GETG", 1}, {INS_SETG, "INS_SETG", 1}, {INS_ICALL, "INS_ICALL", 1}, {INS_GETM, "INS_GETM", 1}, {INS_SETM, "INS_SETM", 1}, {INS_ARY_INIT, "INS_ARY_INIT", 1},
  {INS_SCALL, "INS_SCALL", 2}, {INS_CALL, "INS_CALL", 2}};
static const int NOPS = sizeof ops / sizeof *ops;
static void put(uint8_t *p, uint32_t v) { for (int i = 0; i < 4; i++) p[i] = (uint8_t)(v >> (8 * i)); }
static std::string dec(int32_t v) { char b[16]; snprintf(b, sizeof b, "%i", v); return b; }
static int differ(const std::string &a, const std::string &b) { if (a.size() != b.size()) return 1; int d = 0; for (size_t i = 0; i < a.size(); i++) d |= a[i] ^ b[i]; return d; }
static void one(uint8_t *code, int op, int32_t v1, int32_t v2, const std::string &s1, const std::string &s2) {
  disassembler_t d; std::string out = "rubbish";
  put(code + 1, (uint32_t)v1); put(code + 5, (uint32_t)v2);
  const OP *o = nullptr; for (auto &x : ops) if (x.op == op) o = &x;
  // exactly as many bytes as the instruction has
  int n = o ? 1 + 4 * o->n : 1; uint8_t *ex = new uint8_t[n]; memcpy(ex, code, n);
  int got = d.disasm(ex, out); delete[] ex;
  nsym_out(got);
  if (!o) { nsym_check(got == 0, "a byte that is no opcode has length zero"); return; }
  nsym_check(got == n, "the length of an instruction is that of its opcode and operands");
  std::string want = o->name; if (o->n > 0) want += " " + s1; if (o->n > 1) want += " " + s2;
  nsym_check(!differ(out, want), "the text shows the mnemonic and the operands in order");
  nsym_check(std::string(disassembler_t::get_mnemonic((instruction_e)op)) == o->name, "the text shows the mnemonic and the operands in order");
}
extern "C" void c18_all() {   // every opcode byte
  uint8_t c[9]; c[0] = nsym_u8("op"); int op = nsym_conc(c[0]);
  one(c, op, 17, -5, "17", "-5");
  one(c, op, -2147483647 - 1, 2147483647, "-2147483648", "2147483647");
}
//@ entry c18_all
extern "C" void c18_values() {   // every operand value
  const OP &o = ops[nsym_arg(0)]; uint8_t c[9]; c[0] = (uint8_t)o.op;
  int v = nsym_int("v"), k = nsym_arg(1), v1 = k ? -12 : v, v2 = k ? v : 3;
  bool full = nsym_tier() || o.op == INS_NEW_INT || o.op == INS_JMP || o.op == INS_CALL; if (!full) nsym_assume((v > -20) & (v < 300));
  one(c, o.op, v1, v2, std::to_string(v1), std::to_string(v2));
}
//@ entry c18_values args=17-39 args1=0 time=60
//@ entry c18_values args=38,39 args1=1 time=60
extern "C" void c18_bytes() {    // one byte of the operand any value, compared with separately computed digits
  uint8_t c[9]; int at = nsym_arg(0), which = nsym_choose("op", 3); c[0] = which == 0 ? INS_NEW_INT : which == 1 ? INS_CALL : INS_GETV;
  uint8_t b[8] = {0, 0, 0, 0, 0, 0, 0, 0}; if (at % 2) for (auto &x : b) x = 255;
  uint8_t v = (uint8_t)nsym_conc(nsym_u8("v")); b[at / 2] = v;
  int32_t w[2] = {0, 0}; for (int i = 0; i < 8; i++) w[i / 4] |= (int32_t)((uint32_t)b[i] << (8 * (i % 4)));
  one(c, c[0], w[0], w[1], dec(w[0]), dec(w[1]));
}
//@ entry c18_bytes args=0-15
// ---- whole programs -----------------------------------------------------------------------
struct Ins { int at, len; std::string mn; int n; int32_t v[2]; };
static bool parse(const std::string &t, Ins &i) {
  size_t p = t.find(' '); i.mn = t.substr(0, p); i.n = 0; i.v[0] = i.v[1] = 0;
  while (p != std::string::npos && i.n < 2) { i.v[i.n++] = (int32_t)strtol(t.c_str() + p + 1, nullptr, 10); p = t.find(' ', p + 1); }
  return i.mn.compare(0, 4, "INS_") == 0;
}
static bool listing(const program_t &pr, std::map<int, Ins> &m) {
  disassembler_t d; int at = 0, end = (int)pr.size(); std::string s;
  while (at < end) {
    int n = d.disasm(pr.data() + at, s); Ins i; i.at = at; i.len = n;
    bool ok = n > 0 && parse(s, i) && n == 1 + 4 * i.n;
    nsym_check(ok, "the listing of a compiled program has an instruction at every step"); if (!ok) return false;
    m[at] = i; at += n;
  }
  nsym_check(at == end, "the listing ends precisely at the end of the code"); return at == end;
}
static bool structure(program_t &pr, std::map<int, Ins> &m) {
  const char *fb = "functions start and end on instruction boundaries", *jt = "jumps and calls lead to instructions of the right function";
  auto &fs = pr.functions(); int size = (int)pr.size(); bool good = true;
  for (auto &f : fs) {
    bool ok = f.code_start_ >= 0 && f.code_end_ > f.code_start_ && f.code_end_ <= size && m.count(f.code_start_) && (m.count(f.code_end_) || f.code_end_ == size);
    nsym_check(ok, fb); good &= ok;
    for (auto &g : fs) if (&g != &f) nsym_check(g.code_end_ <= f.code_start_ || g.code_start_ >= f.code_end_, "functions do not overlap");
  }
  for (auto &e : m) {
    Ins &i = e.second; const function_t *f = pr.function_find(i.at);
    if (!f) { nsym_check(0, "every instruction belongs to a function"); good = false; continue; }
    nsym_check(i.at >= f->code_start_ && i.at < f->code_end_, "every instruction belongs to a function");
    auto starts = [&](int a) { for (auto &g : fs) if (g.code_start_ == a) return &g; return (function_t *)nullptr; };
    if (i.mn == "INS_JMP" || i.mn == "INS_TJMP" || i.mn == "INS_FJMP") nsym_check(m.count(i.v[0]) && i.v[0] >= f->code_start_ && i.v[0] < f->code_end_, jt);
    if (i.mn == "INS_CALL") { function_t *g = starts(i.v[1]); nsym_check(g != nullptr, jt); if (g) nsym_check(g->num_args() == i.v[0], "a call shows its number of arguments"); }
    if (i.mn == "INS_NEW_FUNC") nsym_check(starts(i.v[0]) != nullptr, jt);
    if (i.mn == "INS_SCALL") nsym_check(i.v[1] >= 0 && i.v[1] < (int)pr.syscalls().size(), jt);
    if (i.mn == "INS_NEW_STR" || i.mn == "INS_GETM" || i.mn == "INS_SETM") nsym_check(i.v[0] >= 0 && i.v[0] < (int)pr.strings().size(), "string operands are entries of the string table");
    // the last instruction of a function never runs on into the next one
    if (i.at + i.len == f->code_end_) nsym_check(i.mn == "INS_RET" || i.mn == "INS_JMP", "a function ends with a return");
  }
  return good;
}
static int scalls, scall_n; static std::string *scall_name;
static void host(thread_t &th, int32_t n) { scalls++; scall_n = n; for (int i = 0; i < n; i++) th.get_stack().pop(); th.get_stack().push_int(n); }
// run with single steps, each compared with the listing
static void follow(program_t &pr, vm_t &vm, thread_t *t, std::map<int, Ins> &m, int limit) {
  const char *st = "the machine steps exactly as the listing does", *ef = "an instruction does what the listing shows";
  std::vector<int> calls;
  while (!t->finished() && limit-- > 0) {
    int pc = t->get_pc(); auto it = m.find(pc);
    nsym_check(it != m.end(), "execution stays on the listed instructions"); if (it == m.end()) return;
    Ins &i = it->second; int head = t->get_stack().head(), next = pc + i.len; scalls = 0; int depth = (int)t->frames().size();
    t->step_inst();
    if (t->has_error()) return;
    int now = t->get_pc(), h2 = t->get_stack().head(); value_t *top = h2 ? t->get_stack().peek() : nullptr;
    if (i.mn == "INS_JMP") nsym_check(now == i.v[0] && h2 == head, st);
    else if (i.mn == "INS_TJMP" || i.mn == "INS_FJMP") nsym_check((now == i.v[0] || now == next) && h2 == head - 1, st);
    else if (i.mn == "INS_CALL") { nsym_check(now == i.v[1] && (int)t->frames().size() == depth + 1, st); calls.push_back(next); }
    else if (i.mn == "INS_ICALL" && (int)t->frames().size() == depth + 1) { bool s = false; for (auto &f : pr.functions()) s |= f.code_start_ == now && f.num_args() == i.v[0]; nsym_check(s, st); calls.push_back(next); }
    else if (i.mn == "INS_RET") {
      nsym_check(h2 == head - i.v[0], ef);
      if (!t->finished()) { nsym_check(!calls.empty() && now == calls.back(), st); if (calls.empty()) return; calls.pop_back(); }
      else nsym_check(calls.empty(), st);
    } else nsym_check(now == next, st);
    if (i.mn == "INS_NEW_INT") nsym_check(h2 == head + 1 && top->is_a<val_type_int>() && top->v == i.v[0], ef);
    if (i.mn == "INS_NEW_FLT") nsym_check(h2 == head + 1 && top->is_a<val_type_float>() && top->v == i.v[0], ef);
    if (i.mn == "INS_NEW_NONE") nsym_check(h2 == head + 1 && top->is_a<val_type_none>(), ef);
    if (i.mn == "INS_NEW_FUNC") nsym_check(h2 == head + 1 && top->is_a<val_type_func>() && top->v == i.v[0], ef);
    if (i.mn == "INS_NEW_STR") nsym_check(h2 == head + 1 && top->is_a<val_type_string>() && pr.strings()[i.v[0]] == top->string(), ef);
    if (i.mn == "INS_GETV") nsym_check(h2 == head + 1 && top == t->get_stack().get(t->frames().back().sp_ + i.v[0]), ef);
    if (i.mn == "INS_GETG") nsym_check(h2 == head + 1 && top == vm.globals()[i.v[0]], ef);
    if (i.mn == "INS_POP") nsym_check(h2 == head - i.v[0], ef);
    if (i.mn == "INS_LOCALS") nsym_check(h2 == head + i.v[0], ef);
    if (i.mn == "INS_ARY_INIT") nsym_check(h2 == head - i.v[0] + 1 && top->is_a<val_type_array>() && top->array_size() == i.v[0], ef);
    if (i.mn == "INS_SCALL") nsym_check(h2 == head - i.v[0] + 1 && (scalls == 0 || scall_n == i.v[0]), ef);
  }
  nsym_check(t->finished(), "execution stays on the listed instructions");
}
static std::string slurp(const char *path) { std::string r; FILE *f = fopen(path, "rb"); if (!f) return r; char b[512]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
static std::string trim(const std::string &s) { size_t a = s.find_first_not_of(" \t\r"); if (a == std::string::npos) return ""; size_t b = s.find_last_not_of(" \t\r"); return s.substr(a, b - a + 1); }
// the dump holds the same instructions, each under its function's name
static void dumped(program_t &pr, std::map<int, Ins> &m) {
  FILE *f = fopen("dump.txt", "wb"); if (!f) { nsym_check(0, "harness: file"); return; }
  disassembler_t d; d.dump(pr, f); fclose(f);
  std::string t = slurp("dump.txt"), fn, s; size_t p = 0; auto it = m.begin();
  while (p < t.size()) {
    size_t e = t.find('\n', p); if (e == std::string::npos) e = t.size();
    std::string l = trim(t.substr(p, e - p)); p = e + 1;
    if (l.empty()) continue;
    if (l.compare(0, 12, "# function: ") == 0) { fn = l.substr(12); continue; }
    if (l[0] == '#') continue;
    if (it == m.end()) { nsym_check(0, "the dump lists exactly the instructions of the program"); return; }
    d.disasm(pr.data() + it->first, s);
    nsym_check(trim(s) == l, "the dump lists exactly the instructions of the program");
    nsym_check(pr.function_find(it->first) && pr.function_find(it->first)->name() == fn, "the dump lists each function's instructions under its name");
    ++it;
  }
  nsym_check(it == m.end(), "the dump lists exactly the instructions of the program");
}
extern "C" void c18_share() {
  Prog p = share_prog(nsym_arg(0)); bool opt = nsym_arg(1);
  world w; w.add("t", 1, host); MUST_COMPILE(w, text(p), opt);
  std::map<int, Ins> m; if (!listing(w.prog, m) || !structure(w.prog, m)) return;
  dumped(w.prog, m);
  vm_t vm(w.prog); const function_t *in = w.prog.function_find("@init"); if (!in) { nsym_check(0, "harness: no @init"); return; }
  thread_t *t = vm.new_thread(*in, 0, nullptr); if (!t) return;
  follow(w.prog, vm, t, m, 300); if (!t->finished() || t->has_error()) return;
  hval h[2]; h_int(h[0], nsym_int("a")); h_int(h[1], nsym_choose("i", 2));
  const value_t *av[2] = {h[0].p, h[1].p};
  t = vm.new_thread(*w.prog.function_find("main"), 2, av); if (!t) { nsym_check(0, "a thread can be started"); return; }
  follow(w.prog, vm, t, m, 2000);
}
//@ entry c18_share args=0-17 args1=0,1
static const char *srcs[] = {
  "const K = 7\nvar g = K * 3\nvar h = [1, 2.5, \"s\", none, main]\n"
  "function main(a, b)\n var i\n for (i = 0 to 3)\n  if (a < b)\n   g += i\n  else\n   if (not (a == b))\n    g -= a\n   end\n  end\n end\n while (i > 0 and g or 0)\n  i -= 1\n  if (i == 1)\n   return three(g, h, i)\n  end\n end\n return -a % 7 / 2 * b >= 4\nend\n"
  "function three(x, y, z)\n y[z] = x\n t(x)\n t2(x, z)\n t0()\n return y[z] + y.length\nend\n",
  "function main(a, b)\n var f = sub\n var l = [f, t, t2]\n var x = f(a, b) + sub(b, a)\n var u = l[0]\n x = x + u(1, 2)\n var v = l[1]\n v(x)\n var w = l[2]\n w(a, [0])\n return x <= 3 or x > 5 and a\nend\nfunction sub(p, q)\n return p - q\nend\nfunction empty()\nend\nfunction bare(x)\n if (x)\n  return\n end\n bare(0)\nend\n",
  "var o\nfunction main(a, b)\n if (a == 0)\n  return o.field\n end\n if (a == 1)\n  o.field = b\n end\n if (a == 2)\n  var k = [1, [2, [3, [4]]]]\n  k[0] = k[1][1][1][0]\n  return k.length + k[0]\n end\n if (a == 3)\n  return a[b]\n end\n if (a == 4)\n  return \"x\" + b + 1.25 + none + main\n end\nend\n",
  "var a = 1\nvar b = [a, a + 1]\nvar c = \"z\" + a\nfunction main(x, y)\n a *= x\n a /= 3\n b[1] = c\n while (x > 0)\n  var q = x\n  while (q > 1)\n   q -= 2\n   if (q == y)\n    return [q, x, b]\n   end\n  end\n  x -= 1\n end\nend\n"};
extern "C" void c18_source() {
  int k = nsym_arg(0); bool opt = nsym_arg(1);
  world w; w.add("t", 1, host); w.add("t2", 2, host); w.add("t0", 0, host); MUST_COMPILE(w, srcs[k], opt);
  std::map<int, Ins> m; if (!listing(w.prog, m) || !structure(w.prog, m)) return;
  dumped(w.prog, m);
  vm_t vm(w.prog); const function_t *in = w.prog.function_find("@init"); if (!in) { nsym_check(0, "harness: no @init"); return; }
  thread_t *t = vm.new_thread(*in, 0, nullptr); if (!t) return;
  follow(w.prog, vm, t, m, 300); if (!t->finished() || t->has_error()) return;
  hval h[2]; int a = nsym_int("a"), b = nsym_int("b"); if (k == 3) nsym_assume((a < 4) & (a > -3)); if (k == 2) nsym_assume((a != 4) | (b == 12) | (b == -3));
  h_int(h[0], a); h_int(h[1], b); const value_t *av[2] = {h[0].p, h[1].p};
  t = vm.new_thread(*w.prog.function_find("main"), 2, av); if (!t) { nsym_check(0, "a thread can be started"); return; }
  follow(w.prog, vm, t, m, 3000);
}
//@ entry c18_source args=0-3 args1=0,1
// literals of any value
extern "C" void c18_literal() {
  std::string d(nsym_arg(0), '1'); for (auto &c : d) { c = (char)nsym_u8("d"); nsym_assume(c >= '0' && c <= '9'); if (&c - &d[0] < 2) c = (char)nsym_conc(c); else c = (char)('0' + (c - '0') % 10); }
  world w; w.builtins = false; MUST_COMPILE(w, "var g = " + d + "\nfunction main()\n return g + " + d + "\nend\n", false);
  const uint8_t *p = w.prog.data(), *e = w.prog.end(); disassembler_t dis; std::string s; int seen = 0;
  uint32_t v = 0; for (char c : d) v = v * 10 + (c - '0');
  while (p < e) { if (*p == INS_NEW_INT) { int32_t x; memcpy(&x, p + 1, 4); seen += x == (int32_t)v; } int n = dis.disasm(p, s); if (n <= 0) { nsym_check(0, "the listing of a compiled program has an instruction at every step"); return; } p += n; }
  nsym_check(p == e, "the listing ends precisely at the end of the code");
  nsym_check(seen >= 2, "the listing shows the literals of the program");
}
//@ entry c18_literal args=1,2
// big programs: addresses above one and two bytes
extern "C" void c18_big() {
  int nf = nsym_arg(0), ns = nsym_arg(1); std::string s;
  for (int f = 0; f < nf; f++) { s += "function f" + std::to_string(f) + "(a)\n var i = 0\n while (i < 2)\n"; for (int k = 0; k < ns; k++) s += "  a += " + std::to_string(k) + "\n"; s += "  i += 1\n end\n"; if (f) s += " return f" + std::to_string(f - 1) + "(a)\n"; else s += " return a\n"; s += "end\n"; }
  s += "function main(a)\n if (a)\n  return f" + std::to_string(nf - 1) + "(a)\n else\n  return \"zero\"\n end\nend\n";
  world w; w.builtins = false; MUST_COMPILE(w, s);
  std::map<int, Ins> m; if (!listing(w.prog, m) || !structure(w.prog, m)) return;
  vm_t vm(w.prog); hval h; h_int(h, nsym_int("a")); const value_t *av[1] = {h.p};
  thread_t *t = vm.new_thread(*w.prog.function_find("main"), 1, av); if (!t) return;
  follow(w.prog, vm, t, m, 20000);
}
//@ entry c18_big args=3,40 args1=2,20 targs=3,40,300 targs1=2,20,60 steps=3000000000
//@ bounds every opcode byte; every 32-bit operand value for INS_JMP, INS_NEW_INT and INS_CALL, -19 to 299 for the others (thorough: every value for all); 18 + 4 programs, optimised and not, stepped for every integer argument; up to 40 (thorough 300) functions with jumps and calls beyond 16 bits
//@ outside the disassembly of an instruction cut off by the end of the buffer (the interface has no length)
