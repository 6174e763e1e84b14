// A small, independent definition of the script language: an abstract syntax
// tree, a printer to source text and a direct interpreter.  Harnesses build
// trees (choices are symbolic), print them, compile and run the text with the
// real compiler and machine, and compare with what this interpreter computes.
#pragma once
#include "common.hpp"
namespace ref {

// ---- values -----------------------------------------------------------------
struct Val {
  int t = val_type_none;
  int32_t i = 0;        // int, or index of function / array
  float f = 0;
  std::string s;        // string contents or function name
  static Val Int(int32_t v) { Val x; x.t = val_type_int; x.i = v; return x; }
  static Val Flt(float v) { Val x; x.t = val_type_float; x.f = v; return x; }
  static Val Str(const std::string &v) { Val x; x.t = val_type_string; x.s = v; return x; }
  bool num() const { return t == val_type_int || t == val_type_float; }
  float asf() const { return t == val_type_int ? (float)i : f; }
};
// the printable part of a host value
inline Val conv(const program_t &p, const value_t *v) {
  Val x; x.t = v->type();
  switch (x.t) {
  case val_type_int: x.i = v->v; break;
  case val_type_float: x.f = v->f; break;
  case val_type_string: x.s.assign(v->string(), v->strlen()); break;
  case val_type_array: x.i = v->array_size(); break;
  case val_type_func: {
    const function_t *f = p.function_find(v->v);
    if (f) x.s = f->name_;
  } break;
  case val_type_syscall: { const auto &c = const_cast<program_t &>(p).syscalls(); if (v->v >= 0 && v->v < (int)c.size()) x.s = c[v->v].name_; } break;
  }
  return x;
}
// one condition, no branching on values
inline int same(const Val &a, const Val &b) {
  if (a.t != b.t) return 0;
  switch (a.t) {
  case val_type_int: case val_type_array: return a.i == b.i;
  case val_type_float: return (fbits(a.f) == fbits(b.f)) | ((a.f != a.f) & (b.f != b.f));
  case val_type_string: case val_type_func: case val_type_syscall: {
    if (a.s.size() != b.s.size()) return 0;
    int d = 0;
    for (size_t k = 0; k < a.s.size(); k++) d |= a.s[k] ^ b.s[k];
    return d == 0;
  }
  }
  return 1;
}

// ---- syntax -------------------------------------------------------------------
enum K { INT, FLT, STR, NONE, VAR, BIN, NEG, NOT, CALL, IDX, ARR, LEN,
         DECL, SET, COMP, SETA, IF, WHILE, FOR, RET, DO, BLOCK };
struct Node {
  K k; std::string s; int32_t i = 0; std::vector<Node *> c; int line = 0;
};
// a = args/children; null child allowed where optional
inline Node *mk(K k, const std::string &s = "", std::vector<Node *> c = {}) { Node *n = new Node; n->k = k; n->s = s; n->c = c; return n; }
inline Node *lit(int32_t v) { Node *n = mk(INT); n->i = v; return n; }
inline Node *flt(const char *txt) { return mk(FLT, txt); }
inline Node *str(const std::string &v) { return mk(STR, v); }
inline Node *none() { return mk(NONE); }
inline Node *var(const std::string &v) { return mk(VAR, v); }
inline Node *bin(const std::string &op, Node *a, Node *b) { return mk(BIN, op, {a, b}); }
inline Node *neg(Node *a) { return mk(NEG, "", {a}); }
inline Node *lnot(Node *a) { return mk(NOT, "", {a}); }
inline Node *call(const std::string &f, std::vector<Node *> a = {}) { a.insert(a.begin(), var(f)); return mk(CALL, "", a); }
inline Node *calle(Node *f, std::vector<Node *> a = {}) { a.insert(a.begin(), f); return mk(CALL, "", a); }
inline Node *idx(Node *a, Node *i) { return mk(IDX, "", {a, i}); }
inline Node *arr(std::vector<Node *> e) { return mk(ARR, "", e); }
inline Node *len(const std::string &v) { return mk(LEN, v); }
inline Node *decl(const std::string &n, Node *e = nullptr) { return mk(DECL, n, {e}); }
inline Node *set(const std::string &n, Node *e) { return mk(SET, n, {e}); }
inline Node *comp(const std::string &n, const std::string &op, Node *e) { Node *x = mk(COMP, n, {e}); x->c.push_back(mk(NONE, op)); return x; }
inline Node *seta(const std::string &n, Node *i, Node *e) { return mk(SETA, n, {i, e}); }
inline Node *block(std::vector<Node *> s) { return mk(BLOCK, "", s); }
inline Node *if_(Node *c, Node *t, Node *e = nullptr) { return mk(IF, "", {c, t, e}); }
inline Node *while_(Node *c, Node *b) { return mk(WHILE, "", {c, b}); }
inline Node *for_(const std::string &v, Node *a, Node *b, Node *body) { return mk(FOR, v, {a, b, body}); }
inline Node *ret(Node *e = nullptr) { return mk(RET, "", {e}); }
inline Node *do_(Node *callx) { return mk(DO, "", {callx}); }
inline Node *tr(Node *e) { return do_(call("t", {e})); }   // observable: system call t(e)

struct Func { std::string name; std::vector<std::string> params; Node *body; int line = 0, end = 0; };
struct Prog {
  int fuel = 400, frames = 40;           // the interpreter's limits: beyond them a path is not judged
  std::vector<Node *> globals;           // DECL; i=1 marks a constant
  std::vector<Func> funcs;
  void fn(const std::string &n, std::vector<std::string> p, Node *b) { funcs.push_back({n, p, b}); }
  void global(const std::string &n, Node *e = nullptr) { globals.push_back(decl(n, e)); }
  void konst(const std::string &n, Node *e) { Node *d = decl(n, e); d->i = 1; globals.push_back(d); }
  const Func *find(const std::string &n) const { for (auto &f : funcs) if (f.name == n) return &f; return nullptr; }
};

// ---- printing -------------------------------------------------------------------
struct Printer {
  std::string o; int line = 1;
  void nl() { o += '\n'; line++; }
  void ind(int d) { for (int k = 0; k < d; k++) o += ' '; }
  static std::string num(int32_t v) {
    if (v >= 0) return std::to_string(v);
    // there are no negative literals; print as the two's complement value
    return std::to_string((uint32_t)v);
  }
  void args(const Node *n, size_t from) { for (size_t k = from; k < n->c.size(); k++) { if (k > from) o += ','; ex(n->c[k]); } }
  void atom(const Node *n) {
    switch (n->k) { case BIN: case NEG: case NOT: o += '('; ex(n); o += ')'; break; default: ex(n); }
  }
  void ex(const Node *n) {
    switch (n->k) {
    case INT: if (!n->s.empty()) o += n->s; else o += num(n->i); break;
    case FLT: o += n->s; break;
    case STR: o += '"'; o += n->s; o += '"'; break;
    case NONE: o += "none"; break;
    case VAR: o += n->s; break;
    case BIN: atom(n->c[0]); o += ' '; o += n->s; o += ' '; atom(n->c[1]); break;
    case NEG: o += "-"; atom(n->c[0]); break;
    case NOT: o += "not "; atom(n->c[0]); break;
    case CALL: atom(n->c[0]); o += '('; args(n, 1); o += ')'; break;
    case IDX: atom(n->c[0]); o += '['; ex(n->c[1]); o += ']'; break;
    case ARR: o += '['; args(n, 0); o += ']'; break;
    case LEN: o += n->s; o += ".length"; break;
    default: break;
    }
  }
  void body(Node *b, int d) { if (b) for (Node *s : b->c) st(s, d); }
  void st(Node *n, int d) {
    if (n->k == BLOCK) { body(n, d); return; }
    n->line = line; ind(d);
    switch (n->k) {
    case DECL: o += n->i ? "const " : "var "; o += n->s; if (n->c[0]) { o += " = "; ex(n->c[0]); } break;
    case SET: o += n->s; o += " = "; ex(n->c[0]); break;
    case COMP: o += n->s; o += ' '; o += n->c[1]->s; o += "= "; ex(n->c[0]); break;
    case SETA: o += n->s; o += '['; ex(n->c[0]); o += "] = "; ex(n->c[1]); break;
    case RET: o += "return"; if (n->c[0]) { o += ' '; ex(n->c[0]); } break;
    case DO: ex(n->c[0]); break;
    case IF: o += "if ("; ex(n->c[0]); o += ')'; nl(); body(n->c[1], d + 1);
      if (n->c[2]) { ind(d); o += "else"; nl(); body(n->c[2], d + 1); } ind(d); o += "end"; break;
    case WHILE: o += "while ("; ex(n->c[0]); o += ')'; nl(); body(n->c[1], d + 1); ind(d); o += "end"; break;
    case FOR: o += "for ("; o += n->s; o += " = "; ex(n->c[0]); o += " to "; ex(n->c[1]); o += ')'; nl(); body(n->c[2], d + 1); ind(d); o += "end"; break;
    default: break;
    }
    nl();
  }
  void prog(Prog &p, bool globals_last = false) {
    if (!globals_last) for (Node *g : p.globals) st(g, 0);
    for (auto &f : p.funcs) {
      f.line = line;
      o += "function "; o += f.name; o += '(';
      for (size_t k = 0; k < f.params.size(); k++) { if (k) o += ','; o += f.params[k]; }
      o += ')'; nl(); body(f.body, 1); f.end = line; o += "end"; nl();
    }
    if (globals_last) for (Node *g : p.globals) st(g, 0);
  }
};
inline std::string text(Prog &p, bool globals_last = false) { Printer q; q.prog(p, globals_last); return q.o; }

// ---- meaning ---------------------------------------------------------------------
struct Interp {
  Prog &p;
  std::vector<std::vector<Val>> heap;
  std::vector<std::pair<std::string, Val>> glob;
  typedef std::vector<std::pair<std::string, Val>> scope;
  std::vector<scope> *fr = nullptr;     // scopes of the running function
  std::vector<Val> trace;
  thread_error_t err = thread_error_t::e_success;
  int fuel, maxdepth; int depth = 0;
  bool returned = false; Val rv;
  // the lines execution passes over, as printed by Printer; optional ones may be left out
  std::vector<std::pair<int, bool>> lines; int cur = 0;
  void at(int l, bool opt = false) { if (!opt) cur = l; lines.push_back({l, opt}); }
  Interp(Prog &q) : p(q), fuel(q.fuel), maxdepth(q.frames) {}

  bool bad() const { return err != thread_error_t::e_success; }
  Val fail(thread_error_t e) { if (!bad()) err = e; return Val(); }
  void tick() { if (--fuel < 0) nsym_assume(0); }
  Val *find(const std::string &n) {
    if (fr) for (size_t k = fr->size(); k-- > 0;) { auto &s = (*fr)[k]; for (size_t j = s.size(); j-- > 0;) if (s[j].first == n) return &s[j].second; }
    for (auto &g : glob) if (g.first == n) return &g.second;
    return nullptr;
  }
  static int truth(const Val &v) {
    switch (v.t) {
    case val_type_int: return v.i != 0;
    case val_type_float: return v.f != 0.f;
    case val_type_string: return !v.s.empty();
    case val_type_none: return 0;
    }
    return 1;
  }
  Val binop(const std::string &op, const Val &a, const Val &b) {
    using E = thread_error_t;
    if (op == "and") return Val::Int(truth(a) & truth(b));
    if (op == "or") return Val::Int(truth(a) | truth(b));
    bool ii = a.t == val_type_int && b.t == val_type_int, nn = a.num() && b.num();
    char c = op[0]; bool eq = op.size() > 1;
    if (c == '%') {
      if (!ii) return fail(E::e_bad_type_operation);
      if (b.i == 0) return fail(E::e_bad_divide_by_zero);
      return Val::Int(b.i == -1 ? 0 : a.i % b.i);
    }
    if (op == "==") {
      if (ii) return Val::Int(a.i == b.i);
      if (nn) return Val::Int(a.asf() == b.asf());
      if (a.t == val_type_none || b.t == val_type_none) return Val::Int(a.t == b.t);
      if (a.t == b.t && (a.t == val_type_string || a.t == val_type_func)) return Val::Int(same(a, b));
      return fail(E::e_bad_type_operation);
    }
    if (ii) switch (c) {
      case '+': return Val::Int((uint32_t)a.i + (uint32_t)b.i);
      case '-': return Val::Int((uint32_t)a.i - (uint32_t)b.i);
      case '*': return Val::Int((uint32_t)a.i * (uint32_t)b.i);
      case '/': if (b.i == 0) return fail(E::e_bad_divide_by_zero);
        return Val::Int(b.i == -1 ? (int32_t)(0u - (uint32_t)a.i) : a.i / b.i);
      case '<': return Val::Int(eq ? a.i <= b.i : a.i < b.i);
      case '>': return Val::Int(eq ? a.i >= b.i : a.i > b.i);
    }
    if (nn) { float x = a.asf(), y = b.asf(); switch (c) {
      case '+': return Val::Flt(x + y);
      case '-': return Val::Flt(x - y);
      case '*': return Val::Flt(x * y);
      case '/': return Val::Flt(x / y);
      case '<': return Val::Int(eq ? x <= y : x < y);
      case '>': return Val::Int(eq ? x >= y : x > y);
    } }
    if (c == '+' && (a.t == val_type_string || b.t == val_type_string)) {
      std::string x, y;
      if (show(a, x) && show(b, y)) return Val::Str(x + y);
    }
    return fail(E::e_bad_type_operation);
  }
  static bool show(const Val &v, std::string &o) {
    switch (v.t) {
    case val_type_string: o = v.s; return true;
    case val_type_none: o = "none"; return true;
    case val_type_int: { char b[16]; snprintf(b, sizeof b, "%i", v.i); o = b; return true; }
    case val_type_float: { char b[64]; snprintf(b, sizeof b, "%f", (double)v.f); o = b; return true; }
    }
    return false;
  }
  // arguments already evaluated
  Val invoke(const std::string &name, const std::vector<Val> &a) {
    tick();
    if (name == "t") { trace.push_back(a[0]); if (a[0].t == val_type_array) trace.back().i = (int)heap[a[0].i].size(); return a[0].t == val_type_array ? Val::Int(0) : a[0]; }
    if (name == "new_array") {
      if (!a[0].num() || a[0].i <= 0) return fail(thread_error_t::e_bad_argument);
      Val r; r.t = val_type_array; r.i = (int)heap.size(); heap.emplace_back(a[0].i); return r;
    }
    if (name == "len") {
      if (a[0].t == val_type_array) return Val::Int((int)heap[a[0].i].size());
      if (a[0].t == val_type_string) return Val::Int((int)a[0].s.size());
      return fail(thread_error_t::e_bad_argument);
    }
    const Func *f = p.find(name);
    if (!f) { nsym_check(0, "harness: unknown function"); return Val(); }
    std::vector<scope> mine(1);
    for (size_t k = 0; k < f->params.size(); k++) mine[0].push_back({f->params[k], a[k]});
    std::vector<scope> *sv = fr; fr = &mine; depth++;
    if (depth > maxdepth) nsym_assume(0);
    returned = false; rv = Val(); int back = cur; at(f->line, true);
    exec(f->body);
    if (!returned && !bad()) at(f->end, true);
    Val r = returned ? rv : Val::Int(0);
    returned = false; fr = sv; depth--; if (!bad() && depth > 0) at(back);
    return r;
  }
  static bool builtin(const std::string &n) { return n == "t" || n == "new_array" || n == "len"; }
  Val eval(const Node *n) {
    if (bad()) return Val();
    tick();
    using E = thread_error_t;
    switch (n->k) {
    case INT: return Val::Int(n->i);
    case FLT: return Val::Flt((float)atof(n->s.c_str()));
    case STR: return Val::Str(n->s);
    case NONE: return Val();
    case VAR: {
      if (Val *v = find(n->s)) return *v;
      Val f; f.t = builtin(n->s) ? val_type_syscall : val_type_func; f.s = n->s;
      if (!p.find(n->s) && !builtin(n->s)) nsym_check(0, "harness: unknown name");
      return f;
    }
    case BIN: { Val a = eval(n->c[0]); Val b = eval(n->c[1]); if (bad()) return Val(); return binop(n->s, a, b); }
    case NEG: {
      Val a = eval(n->c[0]); if (bad()) return Val();
      if (a.t == val_type_int) return Val::Int(0u - (uint32_t)a.i);
      if (a.t == val_type_float) return Val::Flt(-a.f);
      return fail(E::e_bad_type_operation);
    }
    case NOT: { Val a = eval(n->c[0]); if (bad()) return Val(); return Val::Int(!truth(a)); }
    case CALL: {
      std::vector<Val> a;
      for (size_t k = 1; k < n->c.size(); k++) { a.push_back(eval(n->c[k])); if (bad()) return Val(); }
      if (n->c[0]->k == VAR && !find(n->c[0]->s)) return invoke(n->c[0]->s, a);   // direct
      Val f = eval(n->c[0]); if (bad()) return Val();
      if (f.t != val_type_func && f.t != val_type_syscall) return fail(E::e_bad_type_operation);
      size_t want = builtin(f.s) ? 1 : p.find(f.s)->params.size();
      if (want != a.size()) return fail(E::e_bad_num_args);
      return invoke(f.s, a);
    }
    case IDX: {
      // the subscript is evaluated before the array
      Val i = eval(n->c[1]); Val a = eval(n->c[0]); if (bad()) return Val();
      if (a.t == val_type_none) return fail(E::e_bad_array_object);
      if (i.t != val_type_int) return fail(E::e_bad_array_index);
      if (a.t == val_type_array) {
        auto &h = heap[a.i];
        if (i.i < 0 || i.i >= (int)h.size()) return fail(E::e_bad_array_bounds);
        int k = nsym_conc(i.i); return h[k];
      }
      if (a.t == val_type_string) {
        if (i.i < 0 || i.i >= (int)a.s.size()) return fail(E::e_bad_array_bounds);
        int k = nsym_conc(i.i); return Val::Int((unsigned char)a.s[k]);
      }
      return fail(E::e_bad_type_operation);
    }
    case ARR: {
      std::vector<Val> e;
      for (Node *x : n->c) { e.push_back(eval(x)); if (bad()) return Val(); }
      Val r; r.t = val_type_array; r.i = (int)heap.size(); heap.push_back(e); return r;
    }
    case LEN: {
      Val *v = find(n->s); if (!v || v->t != val_type_array) return fail(E::e_bad_member_access);
      return Val::Int((int)heap[v->i].size());
    }
    default: return Val();
    }
  }
  void blk(Node *b) { fr->emplace_back(); exec(b); fr->pop_back(); }
  void exec(Node *b) {
    if (!b) return;
    for (Node *s : b->c) { if (returned || bad()) return; stmt(s); }
  }
  void assign(const std::string &n, const Val &v) { Val *d = find(n); if (!d) { nsym_check(0, "harness: unknown variable"); return; } *d = v; }
  void stmt(Node *n) {
    using E = thread_error_t;
    tick();
    switch (n->k) {
    case BLOCK: exec(n); return;
    case DECL: { at(n->line); Val v; if (n->c[0]) v = eval(n->c[0]); if (!bad()) fr->back().push_back({n->s, v}); return; }
    case SET: { at(n->line); Val v = eval(n->c[0]); if (!bad()) assign(n->s, v); return; }
    case COMP: { at(n->line); Val *d = find(n->s); Val a = *d; Val b = eval(n->c[0]); if (bad()) return; Val r = binop(n->c[1]->s, a, b); if (!bad()) assign(n->s, r); return; }
    case SETA: { at(n->line);
      Val v = eval(n->c[1]); Val i = eval(n->c[0]); if (bad()) return;
      Val *a = find(n->s);
      if (a->t != val_type_array) { fail(E::e_bad_array_object); return; }
      if (i.t != val_type_int) { fail(E::e_bad_array_index); return; }
      auto &h = heap[a->i];
      if (i.i < 0 || i.i >= (int)h.size()) { fail(E::e_bad_array_bounds); return; }
      h[nsym_conc(i.i)] = v; return;
    }
    case IF: { at(n->line); Val c = eval(n->c[0]); if (bad()) return; if (truth(c)) { blk(n->c[1]); if (n->c[2] && !returned && !bad()) at(n->line, true); } else if (n->c[2]) blk(n->c[2]); return; }
    case WHILE: for (;;) { at(n->line); Val c = eval(n->c[0]); if (bad() || !truth(c)) return; blk(n->c[1]); if (returned || bad()) return; }
    case FOR: { at(n->line);
      Val a = eval(n->c[0]); if (bad()) return; assign(n->s, a);
      for (;;) {
        Val lim; { Val v = *find(n->s); lim = eval(n->c[1]); if (bad()) return; Val c = binop("<", v, lim); if (bad() || !truth(c)) return; }
        blk(n->c[2]); if (returned || bad()) return; at(n->line);
        Val r = binop("+", *find(n->s), Val::Int(1)); if (bad()) return; assign(n->s, r);
      }
    }
    case RET: { at(n->line); Val v; if (n->c[0]) v = eval(n->c[0]); if (bad()) return; rv = v; returned = true; return; }
    case DO: at(n->line); eval(n->c[0]); return;
    default: return;
    }
  }
  void init() {
    for (Node *g : p.globals) glob.push_back({g->s, Val()});
    size_t k = 0;
    // constants first: they have no place in the order of initialisation
    for (size_t r = 0; r < p.globals.size() + 1; r++)
      for (k = 0; k < p.globals.size(); k++) { Node *g = p.globals[k]; if (g->i && g->c[0]) glob[k].second = eval(g->c[0]); err = thread_error_t::e_success; }
    k = 0;
    for (Node *g : p.globals) { if (!g->i && g->c[0]) { Val v = eval(g->c[0]); if (bad()) return; glob[k].second = v; } k++; }
  }
  Val run(const std::string &fn, const std::vector<Val> &a) { return invoke(fn, a); }
};

// ---- the real thing ---------------------------------------------------------------
// trace system call "t": records its argument and returns it (0 for arrays)
inline std::vector<Val> &host_trace() { static std::vector<Val> *t = new std::vector<Val>; return *t; }
inline const program_t *&host_prog() { static const program_t *p = nullptr; return p; }
inline void host_t(thread_t &th, int32_t n) {
  nsym_check(n == 1, "a system call receives the number of arguments written in the script");
  value_t *v = th.get_stack().pop();
  host_trace().push_back(conv(*host_prog(), v));
  if (v->is_a<val_type_array>()) th.get_stack().push_int(0);
  else th.get_stack().push(v);
}
struct Out { bool init_ok = true, ok = false; thread_error_t err = thread_error_t::e_success; Val v; std::vector<Val> trace; };

// compile src and call fn; false if it does not compile
inline bool real(const std::string &src, const std::string &fn, const std::vector<Val> &args, Out &o, bool opt = true, std::string *msg = nullptr) {
  world w; w.add("t", 1, host_t);
  if (!w.compile(src, opt)) { if (msg) *msg = w.err.error; return false; }
  host_trace().clear(); host_prog() = &w.prog;
  vm_t vm(w.prog);
  o.init_ok = vm.call_init();
  if (o.init_ok) {
    hval hv[6]; const value_t *av[6]; int n = 0;
    for (auto &a : args) {
      if (a.t == val_type_int) h_int(hv[n], a.i);
      else if (a.t == val_type_float) h_float(hv[n], a.f);
      else if (a.t == val_type_string) h_str(hv[n], a.s.data(), (int)a.s.size());
      av[n] = hv[n].p; n++;
    }
    const function_t *f = w.prog.function_find(fn);
    nsym_check(f != nullptr, "a declared function can be found by name");
    value_t *rv = nullptr;
    o.ok = vm.call_once(*f, n, av, rv, o.err);
    if (o.ok) o.v = conv(w.prog, rv);
  }
  o.trace = host_trace();
  nsym_out(o.ok); nsym_out((int)o.err); nsym_out((int)o.trace.size()); nsym_out(o.v.t); if (o.v.t == val_type_int) nsym_out(o.v.i);
  return true;
}
// compare program p, started at fn(args), with its meaning
inline void agree(Prog &p, const std::string &fn, const std::vector<Val> &args, const char *what, bool opt = true, bool globals_last = false) {
  Interp I(p);
  I.init();
  bool initbad = I.bad();
  Val want;
  if (!initbad) want = I.run(fn, args);
  std::string src = text(p, globals_last);
  nsym_note(src.c_str());
  Out o; std::string msg;
  if (!real(src, fn, args, o, opt, &msg)) { nsym_note(msg.c_str()); nsym_check(0, "a valid script is accepted by the compiler"); return; }
  if (initbad) { nsym_check(!o.init_ok, "an error in a global's initialiser is reported"); return; }
  nsym_check(o.init_ok, "globals are initialised without error");
  nsym_check(o.trace.size() == I.trace.size(), what);
  for (size_t k = 0; k < o.trace.size() && k < I.trace.size(); k++) nsym_check(same(o.trace[k], I.trace[k]), what);
  nsym_check(o.ok == !I.bad(), what);
  if (I.bad()) nsym_check(o.err == I.err, what);
  else {
    if (want.t == val_type_array) want.i = (int)I.heap[want.i].size();
    nsym_check(same(o.v, want), what);
  }
}
} // namespace ref
