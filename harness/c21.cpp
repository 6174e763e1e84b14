// C21: what the host sees, and what it can decide
#include "ref.hpp"
#include "deep.hpp"
using namespace ref;
using E = thread_error_t;
static const char *SYS = "a system function receives the script's arguments in order and its value is the call's value",
  *HAND = "a handler is offered exactly the cases the language does not handle, with the right operands",
  *ACC = "what a handler pushes is the value of the operation", *DEC = "a declined case is the ordinary error",
  *ERR = "an error stops its thread and is reported by code, call result and machine", *EV = "thread handlers run once, when the thread ends";
// ---- system functions -----------------------------------------------------------------------
struct rec { int n; std::vector<Val> a; };
static std::vector<rec> *log_; static Val reply; static int head_; static E raise_; static int hold_;
static void push(thread_t &t, const Val &v) {
  auto &s = t.get_stack();
  switch (v.t) { case val_type_int: s.push_int(v.i); break; case val_type_float: s.push_float(v.f); break; case val_type_string: s.push_string(v.s); break; case val_type_func: s.push_func(v.i); break;
  case val_type_array: { value_t *a = t.gc().new_array(2); a->array()[0] = t.gc().new_int(v.i); s.push(a); } break; default: s.push_none(); }
}
static void host_f(thread_t &t, int32_t n) {
  rec r; r.n = n; std::vector<Val> back; const program_t &p = t.vm().program();
  for (int i = 0; i < n; i++) back.push_back(conv(p, t.get_stack().pop()));
  for (int i = n; i-- > 0;) r.a.push_back(back[i]);
  log_->push_back(r); head_ = t.get_stack().head();
  if (raise_ != E::e_success) { t.raise_error(raise_); return; }
  if (hold_) t.halt();
  push(t, reply);
}
static void fresh() { log_ = new std::vector<rec>; reply = Val(); raise_ = E::e_success; hold_ = 0; }
static Val any_reply(int k) {
  switch (k) { case 0: return Val(); case 1: return Val::Int(nsym_int("reply")); case 2: return Val::Flt(fval((uint32_t)nsym_int("reply"))); case 3: return Val::Str("back"); case 4: return Val::Str(""); default: { Val v; v.t = val_type_array; v.i = nsym_int("reply"); return v; } }
}
static bool is(const program_t &p, const value_t *v, const Val &w) {
  if (w.t == val_type_array) return v->is_a<val_type_array>() && v->array_size() == 2 && v->array()[0]->is_a<val_type_int>() && v->array()[0]->v == w.i && v->array()[1]->is_a<val_type_none>();
  return same(conv(p, v), w);
}
extern "C" void c21_args() {
  int n = nsym_arg(0), form = nsym_arg(1), var_ = nsym_choose("varargs", 2); fresh();
  // kinds of the arguments: script values of every type, the integers symbolic
  static const char *txt[] = {"a", "b", "\"str\"", "2.5", "none", "m", "[1, 2, 3]", "\"\""}; int kk[4]; std::string a; std::vector<Val> want;
  int A = nsym_int("a"), B = nsym_int("b");
  for (int i = 0; i < n; i++) { kk[i] = nsym_choose("kind", n <= 2 ? 8 : 3); if (i) a += ", "; a += txt[kk[i]];
    Val v; switch (kk[i]) { case 0: v = Val::Int(A); break; case 1: v = Val::Int(B); break; case 2: v = Val::Str("str"); break; case 3: v = Val::Flt(2.5f); break; case 5: v.t = val_type_func; v.s = "m"; break; case 6: v.t = val_type_array; v.i = 3; break; case 7: v = Val::Str(""); break; } want.push_back(v); }
  reply = any_reply(nsym_choose("rkind", n <= 1 ? 6 : 2)); std::string c = "f(" + a + ")", s = "function m(a, b)\n";
  switch (form) {
  case 0: s += " return " + c + "\n"; break;
  case 1: s += " var fp = f\n return fp(" + a + ")\n"; break;
  case 2: s += " var l = 11\n var z = [l, " + c + ", 13]\n if (z[0] == 11 and z[2] == 13 and l == 11)\n  return z[1]\n end\n return \"lost\"\n"; break;
  case 3: s += " " + c + "\n if (a == b)\n  return " + c + "\n else\n  return " + c + "\n end\n"; break;
  case 4: s += " return g(1, " + c + ", 3)\nend\nfunction g(x, y, z)\n if (x == 1 and z == 3)\n  return y\n end\n return \"lost\"\n"; break;
  }
  s += "end\n"; world w; w.add("f", var_ ? -1 : n, host_f); MUST_COMPILE(w, s); vm_t vm(w.prog); nsym_check(vm.call_init(), SYS); hval h[2]; h_int(h[0], A); h_int(h[1], B);
  result r = run(vm, "m", 2, h); nsym_check(r.ok, SYS); size_t calls = form == 3 ? 2 : 1; nsym_check(log_->size() == calls, SYS);
  for (auto &l : *log_) { nsym_check(l.n == n && l.a.size() == want.size(), SYS); for (size_t i = 0; i < l.a.size() && i < want.size(); i++) nsym_check(same(l.a[i], want[i]), SYS); }
  if (r.ok) nsym_check(is(w.prog, r.v, reply), SYS);
}
//@ entry c21_args args=0-4 args1=0-4
// many arguments at once
extern "C" void c21_many() {
  int n = nsym_arg(0), A = nsym_int("a"); fresh(); reply = Val::Int(A); std::string a; for (int i = 0; i < n; i++) a += (i ? ", a + " : "a + ") + std::to_string(i);
  std::string s = "function m(a)\n var l = 5\n var r = f(" + a + ")\n return [l, r]\nend\n"; world w; w.add("f", -1, host_f); MUST_COMPILE(w, s); vm_t vm(w.prog); vm.call_init(); hval h[1]; h_int(h[0], A); result r = run(vm, "m", 1, h);
  nsym_check(r.ok && log_->size() == 1 && log_->at(0).n == n, SYS); if (!r.ok || log_->size() != 1 || (int)log_->at(0).a.size() != n) return;
  int ok = 1; for (int i = 0; i < n; i++) { auto &v = log_->at(0).a[i]; ok &= v.t == val_type_int; ok &= v.i == (int)((unsigned)A + i); } nsym_check(ok, SYS);
  nsym_check(r.v->array_size() == 2 && r.v->array()[0]->v == 5 && r.v->array()[1]->v == A, SYS);
}
//@ entry c21_many args=5,16,130,300
// several system functions are not confused, resolved or not
static int who_; template <int K> static void hostk(thread_t &t, int32_t n) { for (int i = 0; i < n; i++) t.get_stack().pop(); who_ = who_ * 10 + K; t.get_stack().push_int(K); }
extern "C" void c21_which() {
  int miss = nsym_choose("unresolved", 5), c[3]; for (auto &x : c) x = nsym_choose("call", 4); static const char *nm[] = {"alpha", "alp", "beta", "alphabet"}; static const nano_syscall_t fn[] = {hostk<1>, hostk<2>, hostk<3>, hostk<4>}; static const int na[] = {0, 1, 2, 0}; static const char *ar[] = {"()", "(1)", "(1, 2)", "()"};
  who_ = 0; std::string s = "function m()\n var r = 0\n"; for (int x : c) s += std::string(" r = r * 10 + ") + nm[x] + ar[x] + "\n"; s += " return r\nend\nfunction k()\n var p = " + std::string(nm[c[0]]) + "\n return p" + ar[c[0]] + "\nend\n";
  world w; w.builtins = false; for (int i = 0; i < 4; i++) w.add(nm[i], na[i], miss == i ? nullptr : fn[i]); MUST_COMPILE(w, s);
  nsym_check(!w.prog.syscall_resolve("gamma", fn[0]) && !w.prog.syscall_resolve("alph", fn[0]) && !w.prog.syscall_resolve("", fn[0]), "resolving reports whether the program has that system function");
  bool used[4] = {0, 0, 0, 0}; for (int x : c) used[x] = true; for (int i = 0; i < 4; i++) if (used[i]) nsym_check(w.prog.syscall_resolve(nm[i], miss == i ? nullptr : fn[i]), "resolving reports whether the program has that system function");
  vm_t vm(w.prog); vm.call_init(); result r = run(vm, "m"); int want = 0; bool bad = false; for (int x : c) { if (x == miss) { bad = true; break; } want = want * 10 + x + 1; }
  nsym_check(who_ == want, SYS); if (bad) nsym_check(r.is_err(E::e_bad_syscall), ERR); else nsym_check(r.is_int(want), SYS);
  who_ = 0; r = run(vm, "k"); if (c[0] == miss) nsym_check(r.is_err(E::e_bad_syscall) && who_ == 0, ERR); else nsym_check(r.is_int(c[0] + 1) && who_ == c[0] + 1, SYS);
}
//@ entry c21_which
// a system function that stops the time slice changes nothing
extern "C" void c21_hold() {
  int a = nsym_int("a"), slice = 1 + nsym_choose("slice", 20); fresh(); reply = Val::Int(3); hold_ = nsym_arg(0);
  world w; w.add("f", 1, host_f); MUST_COMPILE(w, "function m(a)\n var x = a + f(a)\n x = x * f(x)\n f(9)\n return x - f(1)\nend\n"); vm_t vm(w.prog); vm.call_init(); hval h[1]; h_int(h[0], a); const value_t *av[] = {h[0].p};
  thread_t *t = vm.new_thread(*w.prog.function_find("m"), 1, av); nsym_check(t != nullptr, ERR); if (!t) return;
  size_t seen = 0; int rounds = 0; while (!t->finished() && rounds < 200) { bool ok = t->resume(slice); nsym_check(ok, ERR); nsym_check(log_->size() <= seen + (hold_ ? 1 : 4), "halting ends the time slice"); seen = log_->size(); rounds++; nsym_check(t->finished() || t->get_return_value() == nullptr, "there is no result before the end"); }
  nsym_check(t->finished() && !t->has_error() && seen == 4, ERR); int want = (int)(((unsigned)a + 3) * 3 - 3); nsym_check(t->get_return_value()->is_a<val_type_int>() && t->get_return_value()->v == want, SYS);
  if (hold_) nsym_check(rounds >= 5, "halting ends the time slice");
}
//@ entry c21_hold args=0,1
// ---- operator handlers ------------------------------------------------------------------------
struct call_rec { int op; const value_t *l, *r, *x; int lt, rt; std::string m; };
static std::vector<call_rec> *ops_; static int accept_; static const value_t *want_l, *want_r;
static bool take(thread_t &t, int op, const value_t *l, const value_t *r, const value_t *x = nullptr, const std::string &m = "", bool push_ = true) { ops_->push_back({op, l, r, x, l->type(), r->type(), m}); if (!accept_) return false; if (push_) push(t, reply); return true; }
static bool on_add(thread_t &t, const value_t *l, const value_t *r) { return take(t, 0, l, r); }
static bool on_sub(thread_t &t, const value_t *l, const value_t *r) { return take(t, 1, l, r); }
static bool on_mul(thread_t &t, const value_t *l, const value_t *r) { return take(t, 2, l, r); }
static bool on_div(thread_t &t, const value_t *l, const value_t *r) { return take(t, 3, l, r); }
static bool on_eq(thread_t &t, const value_t *l, const value_t *r) { return take(t, 4, l, r); }
static bool on_aget(thread_t &t, value_t *a, const value_t *i) { return take(t, 5, a, i); }
static bool on_aset(thread_t &t, value_t *a, const value_t *i, value_t *v) { return take(t, 6, a, i, v, "", false); }
static bool on_mget(thread_t &t, value_t *o, const std::string &m) { return take(t, 7, o, nullptr, nullptr, m); }
static bool on_mset(thread_t &t, value_t *o, value_t *e, const std::string &m) { return take(t, 8, o, e, nullptr, m, false); }
static void all(vm_t &vm) { auto &h = vm.handlers; h.on_add = on_add; h.on_sub = on_sub; h.on_mul = on_mul; h.on_div = on_div; h.on_equals = on_eq; h.on_array_get = on_aget; h.on_array_set = on_aset; h.on_member_get = on_mget; h.on_member_set = on_mset; }
static const char *opnd[] = {"none", "a", "2.5", "\"s\"", "[7]", "m", "f", "\"\"", "0.0"}; static const int opty[] = {val_type_none, val_type_int, val_type_float, val_type_string, val_type_array, val_type_func, val_type_syscall, val_type_string, val_type_float};
static int seen_; static void host_probe(thread_t &t, int32_t n) { for (int i = 0; i < n; i++) t.get_stack().pop(); seen_++; t.get_stack().push_int(0); }
extern "C" void c21_ops() {
  static const char *op[] = {"+", "-", "*", "/", "==", "%", "<", ">", "<=", ">="}; int k = nsym_arg(0), l = nsym_choose("l", 9), r = nsym_choose("r", 9), mode = nsym_choose("mode", 3), A = nsym_int("a"); fresh(); ops_ = new std::vector<call_rec>; accept_ = mode == 1; seen_ = 0;
  nsym_assume(A != 0); bool vars = nsym_choose("vars", 2);
  std::string s = std::string("function m(a)\n") + (vars ? std::string(" var x = ") + opnd[l] + "\n var y = " + opnd[r] + "\n probe()\n return [11, x " + op[k] + " y, 13]\n" : std::string(" return [11, ") + opnd[l] + " " + op[k] + " " + opnd[r] + ", 13]\n") + "end\n";
  reply = any_reply(nsym_choose("rkind", 3)); world w; w.add("f", 0, host_f); w.add("probe", 0, host_probe); MUST_COMPILE(w, s, false); vm_t vm(w.prog); vm.call_init(); if (mode != 2) all(vm);
  hval h[1]; h_int(h[0], A); result q = run(vm, "m", 1, h); int lt = opty[l], rt = opty[r]; bool num = (lt == val_type_int || lt == val_type_float) && (rt == val_type_int || rt == val_type_float), plain = num;
  if (k == 5) plain = lt == val_type_int && rt == val_type_int;
  if (k == 0 && (lt == val_type_string || rt == val_type_string)) { auto sh = [](int t) { return t != val_type_array && t != val_type_syscall; }; plain = sh(lt) && sh(rt); }
  if (k == 4) plain = num || lt == val_type_none || rt == val_type_none || (lt == rt && (lt == val_type_string || lt == val_type_func));
  size_t offered = !plain && k <= 4 && mode != 2 ? 1 : 0; nsym_check(ops_->size() == offered, HAND);
  if (offered && ops_->size() == 1) { auto &c = ops_->at(0); nsym_check(c.op == k && c.lt == lt && c.rt == rt, HAND); }
  if (plain || (offered && accept_)) { nsym_check(q.ok, plain ? HAND : ACC); if (q.ok) { nsym_check(q.v->is_a<val_type_array>() && q.v->array_size() == 3 && q.v->array()[0]->v == 11 && q.v->array()[2]->v == 13, ACC); if (!plain && q.v->is_a<val_type_array>()) nsym_check(is(w.prog, q.v->array()[1], reply), ACC); } }
  else nsym_check(q.is_err(E::e_bad_type_operation), DEC);
}
//@ entry c21_ops args=0-9
// which operand is which: same types, told apart by identity and contents
extern "C" void c21_operands() {
  static const char *op[] = {"+", "-", "*", "/", "=="}; int k = nsym_arg(0), comp_ = k < 4 ? nsym_choose("compound", 2) : 0, A = nsym_int("a"), B = nsym_int("b"); fresh(); ops_ = new std::vector<call_rec>; accept_ = 1; reply = Val::Int(nsym_int("reply"));
  std::string s = std::string("var x\nvar y\nfunction m(a, b)\n x = [a]\n y = [b]\n var k = [x, y]\n var r = x\n ") + (comp_ ? std::string("r ") + op[k] + "= y" : std::string("r = x ") + op[k] + " y") + "\n return [k, r]\nend\n";
  world w; MUST_COMPILE(w, s); vm_t vm(w.prog); vm.call_init(); all(vm); hval h[2]; h_int(h[0], A); h_int(h[1], B); result q = run(vm, "m", 2, h); nsym_check(q.ok && ops_->size() == 1, HAND); if (!q.ok || ops_->size() != 1) return;
  auto &c = ops_->at(0); const value_t *x = vm.globals()[0], *y = vm.globals()[1]; nsym_check(c.op == k && c.l == x && c.r == y, HAND); nsym_check(x->array()[0]->v == A && y->array()[0]->v == B, HAND);
  nsym_check(is(w.prog, q.v->array()[1], reply), ACC);
}
//@ entry c21_operands args=0-4
// ---- array and member handlers ---------------------------------------------------------------
extern "C" void c21_array() {
  int set_ = nsym_arg(0), o = nsym_choose("object", 9), i = nsym_choose("index", 9), mode = nsym_choose("mode", 3), A = nsym_int("a"); fresh(); ops_ = new std::vector<call_rec>; accept_ = mode == 1;
  nsym_assume(A >= -1); nsym_assume(A <= 1); reply = any_reply(nsym_choose("rkind", 3));
  std::string s = std::string("var x\nvar y\nfunction m(a)\n x = ") + opnd[o] + "\n y = " + opnd[i] + "\n" + (set_ ? " x[y] = [a]\n return 77\n" : " var r = [1, x[y]]\n return r[1]\n") + "end\n";
  world w; w.add("f", 0, host_f); MUST_COMPILE(w, s); vm_t vm(w.prog); vm.call_init(); if (mode != 2) all(vm); 
  // reading r[1] would be offered as well: look at the first offer, and at globals
  hval h[1]; h_int(h[0], A); if (!set_) { } result q = run(vm, "m", 1, h); const value_t *x = vm.globals()[0], *y = vm.globals()[1];
  if (mode != 2) { nsym_check(ops_->size() >= 1, HAND); if (ops_->empty()) return; auto &c = ops_->at(0); nsym_check(c.op == (set_ ? 6 : 5) && c.l == x && c.r == y, HAND); if (set_) nsym_check(c.x && c.x->is_a<val_type_array>() && c.x->array_size() == 1 && c.x->array()[0]->v == A, HAND); }
  if (mode == 1) { nsym_check(q.ok, ACC); if (q.ok) { if (set_) { nsym_check(q.is_int(77), ACC); if (x->is_a<val_type_array>()) nsym_check(x->array()[0]->is_a<val_type_int>() && x->array()[0]->v == 7, "an accepted store is left to the handler"); } else nsym_check(is(w.prog, q.v, reply), ACC); } return; }
  int ot = opty[o], it = opty[i]; E e = E::e_success;
  if (set_) { if (ot != val_type_array) e = E::e_bad_array_object; else if (it != val_type_int) e = E::e_bad_array_index; else if (A != 0) e = E::e_bad_array_bounds; }
  else { int n = ot == val_type_array ? 1 : o == 3 ? 1 : 0; if (ot == val_type_none) e = E::e_bad_array_object; else if (it != val_type_int) e = E::e_bad_array_index; else if (ot != val_type_array && ot != val_type_string) e = E::e_bad_type_operation; else if (A < 0 || A >= n) e = E::e_bad_array_bounds; }
  if (ot != val_type_array && ot != val_type_string && e != E::e_success) { nsym_check(!q.ok, DEC); if (ot != val_type_none && it != val_type_int) return; }
  if (e != E::e_success) nsym_check(q.is_err(e), DEC); else { nsym_check(q.ok, HAND); if (q.ok && !set_) nsym_check(q.is_int(ot == val_type_array ? 7 : 's'), HAND); if (q.ok && set_) nsym_check(x->array()[0]->is_a<val_type_array>(), HAND); }
}
//@ entry c21_array args=0,1
extern "C" void c21_member() {
  int set_ = nsym_arg(0), o = nsym_choose("object", 9), nm = nsym_choose("name", 5), mode = nsym_choose("mode", 3), A = nsym_int("a"); fresh(); ops_ = new std::vector<call_rec>; accept_ = mode == 1; reply = any_reply(nsym_choose("rkind", 5));
  static const char *names[] = {"length", "lengt", "lengths", "Length", "x"}; std::string s = std::string("var x\nfunction m(a)\n x = ") + opnd[o] + "\n" + (set_ ? std::string(" x.") + names[nm] + " = [a]\n return 77\n" : std::string(" var l = 5\n var r = x.") + names[nm] + "\n if (l == 5)\n  return r\n end\n") + "end\n";
  world w; w.add("f", 0, host_f); MUST_COMPILE(w, s); vm_t vm(w.prog); vm.call_init(); if (mode != 2) all(vm); hval h[1]; h_int(h[0], A); result q = run(vm, "m", 1, h); const value_t *x = vm.globals()[0];
  bool own = !set_ && opty[o] == val_type_array && nm == 0; size_t offered = own || mode == 2 ? 0 : 1; nsym_check(ops_->size() == offered, HAND);
  if (offered && ops_->size() == 1) { auto &c = ops_->at(0); nsym_check(c.op == (set_ ? 8 : 7) && c.l == x && c.m == names[nm], HAND); if (set_) nsym_check(c.r && c.rt == val_type_array && c.r->array()[0]->v == A, HAND); }
  if (own) { nsym_check(q.is_int(1), HAND); return; }
  if (mode == 1) { nsym_check(q.ok, ACC); if (q.ok) { if (set_) nsym_check(q.is_int(77), ACC); else nsym_check(is(w.prog, q.v, reply), ACC); } }
  else nsym_check(q.is_err(E::e_bad_member_access), DEC);
}
//@ entry c21_member args=0,1
// ---- errors --------------------------------------------------------------------------------------
struct kind { const char *stmt; E e; const char *name; };
static const kind kinds[] = {
  {"x = a / z", E::e_bad_divide_by_zero, "e_bad_divide_by_zero"}, {"x = a % z", E::e_bad_divide_by_zero, "e_bad_divide_by_zero"}, {"x = l[a]", E::e_bad_array_bounds, "e_bad_array_bounds"}, {"l[a] = 1", E::e_bad_array_bounds, "e_bad_array_bounds"},
  {"x = a - \"s\"", E::e_bad_type_operation, "e_bad_type_operation"}, {"x = -l", E::e_bad_type_operation, "e_bad_type_operation"}, {"x = abs(\"s\")", E::e_bad_argument, "e_bad_argument"}, {"x = l[\"s\"]", E::e_bad_array_index, "e_bad_array_index"},
  {"a[0] = 1", E::e_bad_array_object, "e_bad_array_object"}, {"x = n[0]", E::e_bad_array_object, "e_bad_array_object"}, {"x = a.foo", E::e_bad_member_access, "e_bad_member_access"}, {"a.foo = 1", E::e_bad_member_access, "e_bad_member_access"},
  {"x = nosys()", E::e_bad_syscall, "e_bad_syscall"}, {"x = fp(1, 2)", E::e_bad_num_args, "e_bad_num_args"}, {"x = new_array(500000)", E::e_out_of_memory, "e_out_of_memory"}, {"x = a < l", E::e_bad_type_operation, "e_bad_type_operation"}, {"z(1)", E::e_bad_type_operation, "e_bad_type_operation"}, {"x = new_array(0)", E::e_bad_argument, "e_bad_argument"}};
static const int NK = 18; static std::string *ev_; static const thread_t *evt_[8];
static bool on_err(thread_t &t) { evt_[ev_->size() & 7] = &t; *ev_ += t.has_error() ? 'E' : '?'; return true; }
static bool on_fin(thread_t &t) { evt_[ev_->size() & 7] = &t; *ev_ += t.finished() ? (t.has_error() ? 'X' : 'F') : '?'; return true; }
extern "C" void c21_errors() {
  int k = nsym_arg(0), depth = nsym_choose("place", 5), A = nsym_int("a"); nsym_assume((A < 0) | (A > 3)); const kind &K = kinds[k]; fresh(); ev_ = new std::string; int slice = nsym_choose("slice", 3); static const int sl[] = {1, 7, 100000};
  std::string st = std::string("t(1)\n ") + K.stmt + "\n t(2)\n"; std::string s = "var g\nfunction q(p)\n return p\nend\nfunction w(a, l, z, n, fp)\n var x\n ";
  switch (depth) { case 0: s += st; break; case 1: s += "if (1)\n " + st + " end\n"; break; case 2: s += "while (1)\n " + st + " end\n"; break; case 3: s += "for (x = 0 to 2)\n " + st + " end\n"; break; case 4: s += "var pend = [1, \"s\"]\n if (z == 0)\n  if (l)\n " + st + "  end\n end\n"; break; }
  s += " t(3)\n g = 1\n return x\nend\nfunction m(a)\n t(0)\n var l = [1, 2, 3]\n var r = 5 + w(a, l, 0, none, q)\n t(4)\n return r\nend\nfunction fine(a)\n return a + 1\nend\n";
  world w; w.add("t", 1, host_t); w.add("nosys", 0, nullptr); MUST_COMPILE(w, s); host_prog() = &w.prog; host_trace().clear(); vm_t vm(w.prog); vm.call_init(); vm.handlers.on_thread_error = on_err; vm.handlers.on_thread_finish = on_fin; nsym_check(!vm.has_error(), ERR);
  hval h[1]; h_int(h[0], A); const value_t *av[] = {h[0].p};
  if (slice == 2) { result r = run(vm, "m", 1, h); nsym_check(r.is_err(K.e), ERR); nsym_check(*ev_ == "EX", EV); }
  else { thread_t *t = vm.new_thread(*w.prog.function_find("m"), 1, av); bool failed = false; for (int i = 0; i < 400 && !failed; i++) { bool ok = t->resume(sl[slice]); if (!ok) failed = true; else nsym_check(!t->finished() && *ev_ == "", EV); }
    nsym_check(failed && t->finished() && t->has_error() && t->get_error() == K.e, ERR); nsym_check(*ev_ == "EX" && evt_[0] == t && evt_[1] == t, EV); nsym_check(!t->resume(10) && *ev_ == "EX" && host_trace().size() == 2, ERR); }
  nsym_check(host_trace().size() == 2, "nothing further of a failed thread runs"); nsym_check(vm.globals()[0]->is_a<val_type_none>(), "nothing further of a failed thread runs");
  nsym_check(vm.has_error() && vm.finished(), ERR); nsym_check(!strcmp(get_thread_error(K.e), K.name), ERR);
  *ev_ = ""; result r2 = run(vm, "fine", 1, h); nsym_check(r2.is_int((int)((unsigned)A + 1)), "another call works after an error"); nsym_check(*ev_ == "F", EV);
}
//@ entry c21_errors args=0-17
// ... far down the call stack, after a long run, with other calls before and after
extern "C" void c21_deep() {
  int d = nsym_arg(0), k = nsym_choose("kind", 5), A = nsym_int("a"); nsym_assume((A < 0) | (A > 3)); static const int kk[] = {0, 2, 6, 10, 13}; const kind &K = kinds[kk[k]]; fresh(); ev_ = new std::string; int way = nsym_choose("way", 2);
  std::string s = std::string("var g\nfunction q(p)\n return p\nend\nfunction w(a, l, z, n, fp)\n var x = 0\n while (x < ") + (nsym_arg(1) ? "3000" : "1") + ")\n  x += 1\n end\n t(1)\n " + K.stmt + "\n t(2)\n g = 1\n return x\nend\nfunction down(n, a)\n var keep = [n]\n if (n <= 0)\n  return w(a, [1, 2, 3], 0, none, q)\n end\n var r = down(n - 1, a)\n t(3)\n g = 1\n return r\nend\nfunction m(n, a)\n var r = down(n, a)\n g = 1\n return r\nend\nfunction fine(a)\n return a + 1\nend\n";
  world w; w.add("t", 1, host_t); MUST_COMPILE(w, s); host_prog() = &w.prog; host_trace().clear(); vm_t vm(w.prog); vm.call_init(); vm.handlers.on_thread_error = on_err; vm.handlers.on_thread_finish = on_fin;
  hval h[2]; h_int(h[0], d); h_int(h[1], A); const value_t *av[] = {h[0].p, h[1].p};
  for (int rep = 0; rep < 3; rep++) {
    *ev_ = ""; host_trace().clear();
    if (way == 0) { value_t *rv = (value_t *)8; E err = E::e_success; bool ok = vm.call_once(*w.prog.function_find("m"), 2, av, rv, err); nsym_check(!ok && err == K.e && rv == nullptr, ERR); }
    else { thread_t *t = vm.new_thread(*w.prog.function_find("m"), 2, av); if (!t) { nsym_check(0, ERR); return; } bool ok = true; for (int i = 0; i < 200 && ok; i++) ok = t->resume(1000); nsym_check(!ok && t->finished() && t->get_error() == K.e, ERR); }
    nsym_check(*ev_ == "EX" && host_trace().size() == 1 && vm.globals()[0]->is_a<val_type_none>() && vm.has_error(), ERR);
    *ev_ = ""; result r2 = run(vm, "fine", 1, h + 1); nsym_check(r2.is_int((int)((unsigned)A + 1)) && *ev_ == "F", "another call works after an error");
  }
}
//@ entry c21_deep args=0,1,7,8,31,64,130,250 args1=0,1 steps=400000000
// any member name, with no handler or one that declines
extern "C" void c21_names() {
  int set_ = nsym_arg(0), n = nsym_arg(1), o = nsym_choose("object", 9), mode = nsym_choose("mode", 2); fresh(); ops_ = new std::vector<call_rec>; accept_ = false; reply = any_reply(0);
  std::string nm(n, 'Q'); std::string s = std::string("var x\nfunction m(a)\n x = ") + opnd[o] + "\n" + (set_ ? " x." + nm + " = 3\n return 77\n" : " var r = x." + nm + "\n return r\n") + "end\n";
  world w; w.add("f", 0, host_f); MUST_COMPILE(w, s); std::string name = nm; for (int i = 0; i < n; i++) { int c = nsym_int("c"); nsym_assume(((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_')); name[i] = (char)c; }
  int hits = 0; for (auto &t : const_cast<std::vector<std::string> &>(w.prog.strings())) if (t == nm) { hits++; for (int i = 0; i < n; i++) t[i] = name[i]; } if (!hits) { nsym_note("the member's name is not in the string table"); return; }
  int islen = 0; if (n == 6) { static const char *L = "length"; islen = 1; for (int i = 0; i < 6; i++) islen &= name[i] == L[i]; } nsym_assume(!islen);
  vm_t vm(w.prog); vm.call_init(); if (mode) all(vm); hval h[1]; h_int(h[0], 3); result q = run(vm, "m", 1, h);
  nsym_check(q.is_err(E::e_bad_member_access), DEC); if (mode) nsym_check(ops_->size() == 1 && ops_->at(0).m.size() == (size_t)n, HAND);
}
//@ entry c21_names args=0,1 args1=1-8,16
// every code a host function can raise, and its name
extern "C" void c21_raise() {
  static const char *nm[] = {"e_success", "e_max_cycle_count", "e_bad_prepare", "e_bad_getv", "e_bad_setv", "e_bad_num_args", "e_bad_syscall", "e_bad_opcode", "e_bad_set_global", "e_bad_get_global", "e_bad_pop", "e_bad_divide_by_zero", "e_stack_overflow", "e_stack_underflow", "e_bad_globals_size", "e_bad_array_bounds", "e_bad_type_operation", "e_bad_argument", "e_bad_array_index", "e_bad_array_object", "e_bad_member_access", "e_out_of_memory"};
  static const E code[] = {E::e_success, E::e_max_cycle_count, E::e_bad_prepare, E::e_bad_getv, E::e_bad_setv, E::e_bad_num_args, E::e_bad_syscall, E::e_bad_opcode, E::e_bad_set_global, E::e_bad_get_global, E::e_bad_pop, E::e_bad_divide_by_zero, E::e_stack_overflow, E::e_stack_underflow, E::e_bad_globals_size, E::e_bad_array_bounds, E::e_bad_type_operation, E::e_bad_argument, E::e_bad_array_index, E::e_bad_array_object, E::e_bad_member_access, E::e_out_of_memory};
  int k = nsym_choose("code", 22); fresh(); raise_ = code[k]; nsym_check(!strcmp(get_thread_error(code[k]), nm[k]), "an error code has its name");
  world w; w.add("f", 0, host_f); w.add("t", 1, host_t); MUST_COMPILE(w, "function d(p)\n var q = [p, f()]\n t(2)\n return q\nend\nfunction m(a)\n t(1)\n var x = d(a)\n t(3)\n return 5\nend\n"); host_prog() = &w.prog; host_trace().clear(); vm_t vm(w.prog); vm.call_init(); ev_ = new std::string; vm.handlers.on_thread_error = on_err; vm.handlers.on_thread_finish = on_fin;
  hval h[1]; h_int(h[0], nsym_int("a")); result r = run(vm, "m", 1, h);
  if (!k) { nsym_check(r.is_int(5) && host_trace().size() == 3 && !vm.has_error() && *ev_ == "F", SYS); return; }
  nsym_check(r.is_err(code[k]) && vm.has_error() && vm.finished(), ERR); nsym_check(host_trace().size() == 1, "nothing further of a failed thread runs"); nsym_check(*ev_ == "EX", EV);
}
//@ entry c21_raise
// calls from the host: argument counts, argument kinds, results
extern "C" void c21_call() {
  int p = nsym_choose("params", 5), n = nsym_choose("given", 6), k = nsym_choose("kind", 4), A = nsym_int("a"); std::string ps, e = "7"; for (int i = 0; i < p; i++) { ps += std::string(i ? ", p" : "p") + char('0' + i); e += std::string(", p") + char('0' + i); }
  std::string s = "var ran\nfunction other(q)\n return 1\nend\nfunction m(" + ps + ")\n ran = 1\n return [" + e + "]\nend\nfunction mm()\n return 2\nend\n"; world w; MUST_COMPILE(w, s); vm_t vm(w.prog); vm.call_init(); size_t before = vm.thread().size();
  hval h[6]; const value_t *av[6]; for (int i = 0; i < 6; i++) { switch (k) { case 0: h_int(h[i], (int)((unsigned)A + i)); break; case 1: h_float(h[i], 0.5f + i); break; case 2: h_str(h[i], "hello", i); break; case 3: h_none(h[i]); break; } av[i] = h[i].p; }
  const function_t *f = w.prog.function_find("m"); nsym_check(f && f->name() == "m" && f->num_args() == p, "a function is found by its name"); if (!f) return; nsym_check(!w.prog.function_find("M") && !w.prog.function_find("mmm") && !w.prog.function_find("") && w.prog.function_find("mm")->num_args() == 0, "a function is found by its name"); nsym_check(w.prog.function_find(f->code_start_) == f, "a function is found by its address");
  value_t *rv = (value_t *)8; E err = E::e_bad_pop; bool ok = vm.call_once(*f, n, av, rv, err); nsym_out(ok);
  if (n != p) { nsym_check(!ok && err == E::e_bad_num_args && rv == nullptr, ERR); nsym_check(vm.globals()[0]->is_a<val_type_none>() && vm.thread().size() == before, "a refused call runs nothing"); nsym_check(!vm.new_thread(*f, n, av) && vm.thread().size() == before, "a refused call runs nothing"); return; }
  nsym_check(ok && err == E::e_success && rv && rv->is_a<val_type_array>() && rv->array_size() == p + 1, "a call returns the function's value"); if (!ok) return;
  for (int i = 0; i < p; i++) { const value_t *v = rv->array()[i + 1]; nsym_check(v != h[i].p || k == 3, "arguments are copied in"); switch (k) { case 0: nsym_check(v->is_a<val_type_int>() && v->v == (int)((unsigned)A + i), "arguments arrive in order"); break; case 1: nsym_check(v->is_a<val_type_float>() && v->f == 0.5f + i, "arguments arrive in order"); break; case 2: nsym_check(v->is_a<val_type_string>() && v->strlen() == i && !strncmp(v->string(), "hello", i), "arguments arrive in order"); break; case 3: nsym_check(v->is_a<val_type_none>(), "arguments arrive in order"); break; } }
}
//@ entry c21_call
// errors of one thread among several; the machine's own loop
extern "C" void c21_machine() {
  int slice = 1 + nsym_choose("slice", 12), A = nsym_int("a"), K = nsym_choose("kind", 3); nsym_assume((A < 0) | (A > 3)); static const int kk[] = {0, 2, 6}; ev_ = new std::string;
  std::string s = std::string("var g = 0\nfunction bad(a)\n var l = [1, 2, 3]\n var x\n var z = 0\n t(1)\n ") + kinds[kk[K]].stmt + "\n g = 99\n t(2)\nend\nfunction good(a)\n var i\n for (i = 0 to 3)\n  g += 1\n end\n t(3)\n return a\nend\n";
  world w; w.add("t", 1, host_t); MUST_COMPILE(w, s); host_prog() = &w.prog; host_trace().clear(); vm_t vm(w.prog); vm.call_init(); vm.resume(1); vm.handlers.on_thread_error = on_err; vm.handlers.on_thread_finish = on_fin; hval h[1]; h_int(h[0], A); const value_t *av[] = {h[0].p}; bool order = nsym_choose("order", 2);
  thread_t *g, *b; if (order) { g = vm.new_thread(*w.prog.function_find("good"), 1, av); b = vm.new_thread(*w.prog.function_find("bad"), 1, av); } else { b = vm.new_thread(*w.prog.function_find("bad"), 1, av); g = vm.new_thread(*w.prog.function_find("good"), 1, av); }
  int fails = 0; for (int i = 0; i < 300; i++) { bool had = vm.has_error(); bool ok = vm.resume(slice); if (!ok) { fails++; nsym_check(vm.has_error() && !had, ERR); } if (vm.thread().empty()) break; }
  (void)g; (void)b; nsym_check(fails == 1, "an error is reported by the round in which it happens"); nsym_check(vm.thread().empty() && vm.finished() && !vm.has_error(), "finished threads are removed");
  nsym_check(vm.globals()[0]->is_a<val_type_int>() && vm.globals()[0]->v == 3, "the other thread finishes"); nsym_check(*ev_ == "EXF" || *ev_ == "FEX", EV); nsym_check(host_trace().size() == 2, ERR);
}
//@ entry c21_machine
// the text of a value
extern "C" void c21_text() {
  int k = nsym_choose("kind", 6), A = nsym_int("a"); world w; w.add("f", 0, host_f); fresh(); static const char *e[] = {"a", "none", "\"some text\"", "m", "f", "1.25"}; MUST_COMPILE(w, std::string("function m(a)\n return ") + e[k] + "\nend\n"); vm_t vm(w.prog); vm.call_init(); hval h[1]; if (k == 0) { nsym_assume((A >= -12) & (A <= 12)); A = nsym_conc(A); } h_int(h[0], A); result r = run(vm, "m", 1, h); if (!r.ok) { nsym_check(0, SYS); return; }
  std::string t = r.v->to_string(), want; switch (k) { case 0: want = std::to_string(A); break; case 1: want = "none"; break; case 2: want = "\"some text\""; break; case 3: want = "function@" + std::to_string(r.v->v); break; case 4: want = "syscall@" + std::to_string(r.v->v); break; case 5: want = "1.250000"; break; }
  nsym_check(t == want, "a value's text shows its kind and contents");
}
//@ entry c21_text
//@ bounds 0 to 4 (and 5, 16, 130, 300) arguments of all kinds in 5 places, all integers; 9 operands of 7 types x 10 operators x accept/decline/absent; 9x9 array accesses; 5 member names, and every name of 1-8 and 16 letters without handlers; errors under up to 250 frames and after up to 3000 rounds; 18 ways to fail in 5 places with three slice lengths; all 22 codes; 0 to 4 parameters against 0 to 5 arguments
//@ outside handlers that accept without pushing a value; system functions that push nothing or pop more than they were given
