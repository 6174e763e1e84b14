// C15: the lexer
#include "common.hpp"
// ---- an independent definition of the tokens of a text ---------------------------
struct T { int type; std::string s; int line; uint32_t v; double num; int dot; };
struct KW { const char *w; int t; };
static const KW kws[] = {{"function", TOK_FUNC}, {"end", TOK_END}, {"if", TOK_IF}, {"else", TOK_ELSE}, {"while", TOK_WHILE}, {"var", TOK_VAR}, {"for", TOK_FOR}, {"to", TOK_TO},
  {"and", TOK_AND}, {"or", TOK_OR}, {"not", TOK_NOT}, {"return", TOK_RETURN}, {"none", TOK_NONE}, {"const", TOK_CONST}, {"import", TOK_IMPORT}};
static bool letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
static bool digit(char c) { return c >= '0' && c <= '9'; }
static int single(char c) {
  switch (c) {
  case '(': return TOK_LPAREN; case ')': return TOK_RPAREN; case '[': return TOK_LBRACKET; case ']': return TOK_RBRACKET; case ',': return TOK_COMMA;
  case '+': return TOK_ADD; case '-': return TOK_SUB; case '*': return TOK_MUL; case '/': return TOK_DIV; case '%': return TOK_MOD; case '.': return TOK_DOT;
  case '=': return TOK_ASSIGN; case '<': return TOK_LT; case '>': return TOK_GT;
  }
  return -1;
}
// false: an error on line "line"
static bool tokens(const char *p, std::vector<T> &o, int &line) {
  line = 1;
  for (;;) {
    char c = *p;
    if (c == 0) { o.push_back({TOK_EOF, "", line}); return true; }
    if (c == ' ' || c == '\t' || c == '\r') { p++; continue; }
    if (c == '\n') { o.push_back({TOK_EOL, "", line}); line++; p++; continue; }
    if (c == '#') { while (*p != 0 && *p != '\n') p++; continue; }
    if (c == '"') { const char *b = ++p; while (*p != '"') { if (*p == 0 || *p == '\n') return false; p++; } o.push_back({TOK_STRING, std::string(b, p - b), line}); p++; continue; }
    if (digit(c)) {
      T t{TOK_INT, "", line, 0, 0, -1};
      for (; digit(*p); p++) { t.v = t.v * 10u + (uint32_t)(*p - '0'); t.num = t.num * 10 + (*p - '0'); }
      if (*p == '.') { t.type = TOK_FLOAT; t.dot = 0; for (p++; digit(*p); p++) { t.num = t.num * 10 + (*p - '0'); t.dot++; } }
      o.push_back(t); continue;
    }
    if (letter(c)) {
      const char *b = p; while (letter(*p) || digit(*p)) p++;
      size_t n = p - b; int kind = TOK_IDENT;
      for (auto &k : kws) { if (strlen(k.w) != n) continue; int eq = 1; for (size_t i = 0; i < n; i++) eq &= (b[i] == k.w[i]) | (b[i] == k.w[i] - 32); if (eq) { kind = k.t; break; } }
      o.push_back({kind, kind == TOK_IDENT ? std::string(b, n) : std::string(), line}); continue;
    }
    int k = single(c); if (k < 0) return false;
    p++;
    if (*p == '=' && (k == TOK_ASSIGN || k == TOK_LT || k == TOK_GT)) { p++; k = k == TOK_ASSIGN ? TOK_EQ : k == TOK_LT ? TOK_LEQ : TOK_GEQ; }
    o.push_back({k, "", line});
  }
}
static const char *TK = "the tokens are those of the text";
static void compare(const std::string &text, int file = 0) {
  char *src = new char[text.size() + 1]; memcpy(src, text.data(), text.size()); src[text.size()] = 0;
  std::vector<T> want; int errline = 0; bool good = tokens(src, want, errline);
  program_t prog; nano_t n(prog); lexer_t lx(n); bool ok = false, threw = false; line_t at; std::string msg;
  try { ok = lx.lex(src, file); } catch (const nano::error_t &e) { threw = true; at = e.line; msg = e.error; }
  nsym_out(threw);
  nsym_check((ok && !threw) == good, "the lexer accepts exactly the texts that consist of tokens");
  if (!good) { if (threw) { nsym_check(at.line == errline && at.file == file, "a lexer error carries the line of the fault"); nsym_check(!msg.empty(), "a lexer error has a message"); } delete[] src; return; }
  if (!ok || threw) return;
  delete[] src;   // tokens own their text
  for (size_t k = 0; k < want.size(); k++) {
    const token_t *t = lx.stream().pop(); T &w = want[k];
    nsym_check(t->type_ == w.type, TK); if (t->type_ != w.type) return;
    nsym_out(t->type_);
    nsym_check(t->line_.line == w.line && t->line_.file == file, "each token carries the line it stands on");
    if (w.type == TOK_IDENT || w.type == TOK_STRING) {
      nsym_check(t->str_.size() == w.s.size(), TK); if (t->str_.size() != w.s.size()) return;
      int d = 0; for (size_t i = 0; i < w.s.size(); i++) d |= t->str_[i] ^ w.s[i];
      nsym_check(d == 0, "identifiers and strings are verbatim");
    }
    if (w.type == TOK_INT) nsym_check((uint32_t)t->get_int() == w.v, "integer literals have their value modulo 2^32");
    if (w.type == TOK_FLOAT) { double p10 = 1; for (int i = 0; i < w.dot; i++) p10 *= 10; nsym_check(fbits(t->get_float()) == fbits((float)(w.num / p10)), "decimal literals have their value"); }
  }
}
// ---- any text of n bytes ------------------------------------------------------------
extern "C" void c15_any() {
  int n = nsym_arg(0), part = nsym_arg(1); char b[8]; nsym_bytes(b, n, "c");
  // the first byte: letters (split by alphabet), digits, blanks and operators, the rest
  if (part < 4) { unsigned char c = b[0] | 32; bool l = c >= 'a' && c <= 'z'; nsym_assume(l && (c - 'a') / 7 == part); }
  else if (part == 4) nsym_assume(digit(b[0]) || b[0] == '_');
  else nsym_assume(!letter(b[0]) && !digit(b[0]));
  compare(std::string(b, n));
}
//@ entry c15_any args=1,2,3 args1=0-5 targs=1,2,3,4 time=120 ttime=3000
extern "C" void c15_empty() { compare(""); }
//@ entry c15_empty
// ---- words: every keyword in every case, cut, extended, one letter changed -----------
extern "C" void c15_words() {
  const KW &k = kws[nsym_arg(0)]; int how = nsym_arg(1); std::string w = k.w; size_t n = w.size();
  auto anycase = [&](std::string &s) { for (size_t i = 0; i < s.size(); i++) { unsigned char c = nsym_u8("case"); nsym_assume((c == (unsigned char)s[i]) | (c == (unsigned char)(s[i] - 32))); s[i] = (char)c; } };
  char x = (char)nsym_u8("x");
  switch (how) {
  case 0: anycase(w); break;
  case 1: anycase(w); w += x; break;                                   // followed by anything
  case 2: w = std::string(1, x) + w; break;                           // preceded by anything
  case 3: { size_t at = nsym_choose("at", (int)n); w[at] = x; break; } // one byte replaced
  case 4: w = "  " + w + "(" + x + ")"; break;
  case 5: { size_t at = 1 + nsym_choose("at", (int)n - 1); w = w.substr(0, at) + x + w.substr(at); break; }  // split
  case 6: w = w + " " + w + x + w; break;
  case 7: w += x; w += (char)nsym_u8("y"); break;                      // followed by any two bytes
  case 8: { static const char A[] = "_a9Z(e. "; w += A[nsym_choose("p", 8)]; w += A[nsym_choose("q", 8)]; w += A[nsym_choose("r", 8)]; w = A[nsym_choose("s", 5)] + w; break; }
  case 9: { static const char A[] = "_a9Z"; int m = nsym_choose("m", 40); for (int i = 0; i < m; i++) w += A[(i * 7 + m) % 4]; w += x; break; }
  }
  compare(w);
}
//@ entry c15_words args=0-14 args1=0-9 time=60
// ---- numbers -------------------------------------------------------------------------
extern "C" void c15_int() {
  int n = nsym_arg(0); std::string s; for (int i = 0; i < n; i++) { char c = (char)nsym_u8("d"); nsym_assume(digit(c)); s += c; }
  char x = (char)nsym_u8("x"); nsym_assume(!digit(x) && x != '.'); if (n > 12) nsym_assume(x == 0);
  compare(s + x + "7");
}
//@ entry c15_int args=1,2,3,9,10,11,20 targs=1-24
extern "C" void c15_dec() {
  int a = nsym_arg(0), b = nsym_arg(1); std::string s;
  for (int i = 0; i < a + b; i++) { char c = "3907281645071"[i]; if (i == 0 || i == a || i == a + b - 1) { c = (char)nsym_u8("d"); nsym_assume(digit(c)); c = (char)nsym_conc(c); } if (i == a) s += '.'; s += c; }
  if (!b) s += '.';
  char x = "\0. a"[b % 4];
  compare(s + x);
}
//@ entry c15_dec args=1,2,3,6 args1=0,1,2,3,5
// known values, with an exactly computed expectation
extern "C" void c15_dec_known() {
  struct { const char *t; uint32_t bits; } k[] = {{"0.1", 0x3dcccccd}, {"0.5", 0x3f000000}, {"3.14159274", 0x40490fdb}, {"16777216.0", 0x4b800000}, {"0.000001", 0x358637bd}, {"123456789.125", 0x4ceb79a3}, {"4294967296.0", 0x4f800000},
    {"99999999999.5", 0x51ba43b7}, {"0.1234567890123456789", 0x3dfcd6ea}, {"1.0", 0x3f800000}, {"007.50", 0x40f00000}, {"340282346638528859811704183484516925440.0", 0x7f7fffff}};
  int i = nsym_choose("k", 12);
  program_t prog; nano_t n(prog); lexer_t lx(n); bool ok = lx.lex(k[i].t, 0);
  const token_t *t = lx.stream().pop();
  nsym_check(ok && t->type_ == TOK_FLOAT && fbits(t->get_float()) == k[i].bits, "decimal literals have their value");
  nsym_check(lx.stream().pop()->type_ == TOK_EOF, TK);
}
//@ entry c15_dec_known
// ---- strings and comments holding anything ----------------------------------------------
extern "C" void c15_quoted() {
  int k = nsym_arg(0), n = nsym_arg(1); std::string s(n, 0); if (n) nsym_bytes(&s[0], n, "c");
  switch (k) {
  case 0: compare("\"" + s + "\" 1"); break;
  case 1: compare("#" + s + "\n1"); break;
  case 2: compare("a #" + s); break;
  case 3: compare("\n\"" + s); break;
  case 4: compare("x=\"#\"" + s + "\n#\"\ny"); break;
  case 5: compare("\"\"" + s + "\"\""); break;
  case 6: compare("\r\n#\r\n\t" + s + "\r\nb"); break;
  }
}
//@ entry c15_quoted args=0-6 args1=0,1,2 targs1=0,1,2,3,4 ttime=1200
// strings and comments of n bytes without the bytes that end them
extern "C" void c15_long() {
  int k = nsym_arg(0), n = nsym_arg(1); std::string s(n, 'x');
  char b[12]; int m = n < 12 ? n : 12; nsym_bytes(b, m, "c");
  for (int i = 0; i < m; i++) { nsym_assume((b[i] != 0) & (b[i] != '\n') & (b[i] != '"')); if (k == 2) { nsym_assume(letter(b[i])); b[i] = (char)((b[i] & 0x20) | 'Q'); } s[i * (n / m)] = b[i]; }
  if (k == 0) compare("a\"" + s + "\"b\n\"" + s + "\"");
  if (k == 1) compare("a#" + s + "\nb#" + s);
  if (k == 2) compare(s + " " + s + "_");
}
//@ entry c15_long args=0-2 args1=5,12,64,300,5000
// ---- operators -----------------------------------------------------------------------------
extern "C" void c15_ops() {
  int n = nsym_arg(0); std::string s; static const char set[] = "=<>+-*/%.()[], 1a\n";
  for (int i = 0; i < n; i++) s += set[nsym_choose("c", sizeof set - 1)];
  compare(s, 3);
}
//@ entry c15_ops args=1-3 targs=1-4
// ---- lines -----------------------------------------------------------------------------------
extern "C" void c15_lines() {
  int n = nsym_arg(0); std::string s; static const char *set[] = {"\n", "a", "\"s\"\n", "#c\n", "1\r\n", "\t+\n\n", "\"", "$"};
  for (int i = 0; i < n; i++) s += set[nsym_choose("c", i == n - 1 ? 8 : 6)];
  compare(s, nsym_choose("file", 2) * 5);
}
//@ entry c15_lines args=1-4 targs=1-5
extern "C" void c15_manylines() {
  int n = nsym_arg(0); std::string s; for (int i = 0; i < n; i++) s += i % 3 == 0 ? "x\n" : i % 3 == 1 ? "#\n" : "\n";
  s += (char)nsym_u8("c"); compare(s);
}
//@ entry c15_manylines args=255,256,700 targs=255,256,700,70000 steps=2000000000
//@ bounds every text of up to 3 (thorough 4) bytes; every keyword in every case with any byte before, after, inside or in place of a letter, or any two after it, or up to 40 name characters after it; integer literals up to 20 (thorough 24) symbolic digits; decimals up to 6+5 digits with any first, first fractional and last digit
//@ bounds strings, comments and identifiers up to 5000 characters with 12 symbolic ones; strings and comments holding any 2 (thorough 4) bytes; 700 (thorough 70000) lines
//@ outside decimals of more than 300 digits
