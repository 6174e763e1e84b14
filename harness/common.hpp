// Shared by every harness: compile a script with the real compiler, run it in
// the real vm, look at the result through the public interface only.
#pragma once
#include "nsym.h"
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include "nano.h"
#include "parser.h"
#include "ast.h"
#include "codegen.h"
#include "errors.h"
#include "lexer.h"
#include "token.h"
#include "source.h"
#include "program.h"
#include "instructions.h"
#include "disassembler.h"
#include "vm.h"
#include "thread.h"
#include "thread_error.h"
#include "builtin.h"

using namespace nano;

// ---- values handed to a script ------------------------------------------
// A host-side value_t.  Strings need their characters right behind them.
struct hval {
  alignas(8) unsigned char mem[sizeof(value_t) + 128];
  value_t *p;
  hval() : p((value_t *)mem) { new (p) value_t(); }
};
struct typed_value : value_t {
  void set_type(value_type_t t) { type_ = t; }
};
inline void h_none(hval &h) { new (h.p) value_t(); }
inline void h_int(hval &h, int32_t v) { new (h.p) value_t(v); }
inline void h_float(hval &h, float f) { ((typed_value *)h.p)->set_type(val_type_float); h.p->f = f; }
inline void h_float_bits(hval &h, uint32_t b) { ((typed_value *)h.p)->set_type(val_type_float); h.p->v = (int32_t)b; }
inline void h_func(hval &h, int32_t addr) { ((typed_value *)h.p)->set_type(val_type_func); h.p->v = addr; }
inline void h_str(hval &h, const char *s, int n) {
  ((typed_value *)h.p)->set_type(val_type_string); h.p->v = n;
  memcpy((char *)(h.p + 1), s, n); ((char *)(h.p + 1))[n] = 0;
}
inline uint32_t fbits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
inline float fval(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }

// ---- compile ---------------------------------------------------------------
struct world {
  program_t prog;
  error_t err;
  bool ok = false;
  bool builtins = true;
  struct sc { const char *n; int a; nano_syscall_t f; };
  std::vector<sc> extra;
  void add(const char *n, int a, nano_syscall_t f) { extra.push_back({n, a, f}); }
  bool compile(source_manager_t &s, bool opt = true) {
    nano_t n(prog);
    n.optimize = opt;
    if (builtins) builtins_register(n);
    for (auto &e : extra) n.syscall_register(e.n, e.a);
    ok = n.build(s, err);
    if (ok) resolve();
    return ok;
  }
  void resolve() {
    if (builtins) builtins_resolve(prog);
    for (auto &e : extra) prog.syscall_resolve(e.n, e.f);
  }
  bool compile(const char *src, bool opt = true) {
    source_manager_t s;
    if (!s.load_from_string(src)) return false;
    return compile(s, opt);
  }
  bool compile(const std::string &src, bool opt = true) { return compile(src.c_str(), opt); }
};
// the script must compile: otherwise the harness (or the tree) is broken
#define MUST_COMPILE(w, src, ...)                                              \
  do { if (!(w).compile(src, ##__VA_ARGS__)) { nsym_note((w).err.error.c_str()); nsym_check(0, "a valid script is accepted by the compiler"); return; } } while (0)

struct result {
  bool ok = false;               // no error
  thread_error_t err = thread_error_t::e_success;
  value_t *v = nullptr;
  value_type_t type() const { return v->type(); }
  bool is_int(int32_t x) const { return ok && v->is_a<val_type_int>() && v->v == x; }
  bool is_none() const { return ok && v->is_a<val_type_none>(); }
  bool is_float(float f) const { return ok && v->is_a<val_type_float>() && (f != f ? v->f != v->f : fbits(v->f) == fbits(f)); }
  bool is_str(const char *s, int n) const {
    if (!ok || !v->is_a<val_type_string>() || v->strlen() != n) return false;
    int d = 0;
    for (int i = 0; i < n; i++) d |= v->string()[i] ^ s[i];
    return d == 0 && v->string()[n] == 0;
  }
  bool is_str(const char *s) const { return is_str(s, (int)strlen(s)); }
  bool is_err(thread_error_t e) const { return !ok && err == e; }
};
inline result run(vm_t &vm, const char *fn, int argc = 0, hval *args = nullptr) {
  result r;
  const function_t *f = vm.program().function_find(fn);
  if (!f) { nsym_check(0, "a declared function can be found by name"); return r; }
  const value_t *av[8];
  for (int i = 0; i < argc; i++) av[i] = args[i].p;
  r.ok = vm.call_once(*f, argc, av, r.v, r.err);
  nsym_out(r.ok);
  if (r.ok && r.v) {
    nsym_out(r.v->type());
    if (r.v->is_a<val_type_int>()) nsym_out(r.v->v);
  } else nsym_out((int)r.err);
  return r;
}
inline bool has_fn(const program_t &p, const char *n) { return p.function_find(n) != nullptr; }
