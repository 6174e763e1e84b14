// C12: threads
#include "deep.hpp"
using namespace ref;
// ---- what the threads report -------------------------------------------------
struct rec { int id; Val v; int round; };
static std::vector<rec> *recs; static int round_no; static int finishes, errors;
static void sys_done(thread_t &t, int32_t n) {
  nsym_check(n == 2, "a system call receives the number of arguments written in the script");
  value_t *v = t.get_stack().pop(), *id = t.get_stack().pop();
  recs->push_back({(int)id->v, conv(t.vm().program(), v), round_no});
  t.get_stack().push_int(0);
}
static bool on_fin(thread_t &) { finishes++; return true; }
static bool on_err(thread_t &) { errors++; return true; }
struct box {
  world w; vm_t *vm = nullptr; bool ok = false;
  box(const std::string &src) {
    recs = new std::vector<rec>; round_no = 0; finishes = errors = 0;
    w.add("done", 2, sys_done);
    if (!w.compile(src)) { nsym_note(w.err.error.c_str()); nsym_check(0, "a valid script is accepted by the compiler"); return; }
    vm = new vm_t(w.prog); vm->handlers.on_thread_finish = on_fin; vm->handlers.on_thread_error = on_err;
    ok = vm->call_init(); nsym_check(ok, "globals are initialised"); finishes = errors = 0;
    while (ok && !vm->thread().empty()) vm->resume(1);   // drop the initialiser
  }
  thread_t *start(const char *fn, int n, hval *h) {
    const value_t *av[6]; for (int k = 0; k < n; k++) av[k] = h[k].p;
    thread_t *t = vm->new_thread(*w.prog.function_find(fn), n, av);
    nsym_check(t != nullptr, "a thread can be started"); return t;
  }
  bool round(int cycles) { round_no++; return vm->resume(cycles); }
  ~box() { delete vm; }
};
static const Val *find(int id, size_t nth = 0) { for (auto &r : *recs) if (r.id == id && nth-- == 0) return &r.v; return nullptr; }
static int isint(const Val *v, int x) { return v && v->t == val_type_int && v->i == x; }
static const char *SL = "a thread computes the same however execution is cut into slices";

// ---- one thread, any two cuts, then slices of 1, 3 or unlimited -----------------
extern "C" void c12_cuts() {
  int k = nsym_arg(0), a = nsym_int("a"), i = nsym_choose("i", 2);
  Prog p = share_prog(k); Interp I(p); I.init();
  Val want = I.run("main", {Val::Int(a), Val::Int(i)});
  world w; w.add("t", 1, host_t); MUST_COMPILE(w, text(p));
  host_trace().clear(); host_prog() = &w.prog;
  vm_t vm(w.prog); nsym_check(vm.call_init(), "globals are initialised");
  hval h[2]; h_int(h[0], a); h_int(h[1], i); const value_t *av[2] = {h[0].p, h[1].p};
  thread_t *t = vm.new_thread(*w.prog.function_find("main"), 2, av); nsym_check(t != nullptr, "a thread can be started"); if (!t) return;
  int rest[] = {1, 3, 100000}, r = rest[nsym_choose("rest", 3)];
  int c1 = nsym_range("c1", 1, 400), c2 = nsym_range("c2", 1, nsym_tier() ? 40 : 6), n = 0;
  vm.resume(c1);
  if (!t->finished()) vm.resume(c2);
  while (!t->finished() && n++ < 2000) vm.resume(r);
  nsym_check(t->finished(), "a thread that is resumed finishes"); if (!t->finished()) return;
  if (I.bad()) { nsym_check(t->get_error() == I.err, SL); return; }
  nsym_check(!t->has_error(), SL); if (t->has_error()) return;
  Deep d(I, w.prog); int ok = d.eq(want, t->get_return_value());
  for (size_t j = 0; j < vm.globals().size() && j < I.glob.size(); j++) ok &= d.eq(I.glob[j].second, vm.globals()[j]);
  nsym_check(ok, SL);
  auto &tr = host_trace(); nsym_check(tr.size() == I.trace.size(), SL);
  for (size_t j = 0; j < tr.size() && j < I.trace.size(); j++) nsym_check(same(tr[j], I.trace[j]), SL);
  nsym_check(vm.finished() && !vm.has_error(), "the machine is finished exactly when all threads are");
}
//@ entry c12_cuts args=0-17

// ---- two threads of one program under every schedule with few switches ------------
extern "C" void c12_switch() {
  int k = nsym_arg(0), a = 5, b = -12;
  if (k != 3 && k != 17) { a = nsym_int("a"); b = nsym_int("b"); }   // (these two print numbers: one path per length)
  Prog p = share_prog(k); Interp I(p); I.init();
  Val wa = I.run("main", {Val::Int(a), Val::Int(0)}), wb = I.run("main", {Val::Int(b), Val::Int(1)});
  if (I.bad()) return;
  world w; w.add("t", 1, host_t); MUST_COMPILE(w, text(p));
  host_trace().clear(); host_prog() = &w.prog;
  vm_t vm(w.prog); nsym_check(vm.call_init(), "globals are initialised");
  hval h[3]; h_int(h[0], a); h_int(h[1], b); h_int(h[2], 0);
  const function_t &f = *w.prog.function_find("main");
  const value_t *av[2] = {h[0].p, h[2].p};
  thread_t *t[2]; t[0] = vm.new_thread(f, 2, av); h_int(h[2], 1); av[0] = h[1].p; t[1] = vm.new_thread(f, 2, av);
  if (!t[0] || !t[1]) { nsym_check(0, "a thread can be started"); return; }
  int cur = nsym_choose("first", 2), sw = 0, n = 0, maxsw = nsym_tier() ? 3 : 2;
  while ((!t[0]->finished() || !t[1]->finished()) && n++ < 4000) {
    if (t[cur]->finished()) { cur ^= 1; continue; }
    t[cur]->resume(1);
    if (sw < maxsw && !t[cur ^ 1]->finished() && nsym_choose("switch", 2)) { cur ^= 1; sw++; }
  }
  bool ok = t[0]->finished() && t[1]->finished() && !t[0]->has_error() && !t[1]->has_error();
  nsym_check(ok, "both threads finish"); if (!ok) return;
  Deep d(I, w.prog);
  nsym_check(d.eq(wa, t[0]->get_return_value()) & d.eq(wb, t[1]->get_return_value()), "each thread computes what it would alone");
}
//@ entry c12_switch args=3,5,6,10,11,12,14,16,17 time=100

// ---- workers started by the script, any slice sizes --------------------------------
static const char *WORK =
  "var total = 0\n"
  "function f(x)\n return x * 2 + 1\nend\n"
  "function worker(id, n, a)\n var s = a\n var i = 0\n while (i < n)\n  var l = [i, s]\n  s = f(l[0]) + l[1] * 3\n  i += 1\n end\n done(id, s)\n return s\nend\n"
  "function fact(id, n)\n done(id, fac(n))\nend\n"
  "function fac(n)\n if (n <= 1)\n  return 1\n end\n return n * fac(n - 1)\nend\n"
  "function text(id, s, k)\n var i = 0\n while (i < k)\n  s = s + i\n  i += 1\n end\n done(id, s)\nend\n"
  "function main(a, b)\n new_thread(worker, 1, 2, a)\n new_thread(worker, 2, 3, b)\n new_thread(fact, 3, 5)\n new_thread(text, 4, \"x\", 3)\n done(0, a - b)\nend\n"
  "function chain(id, n)\n if (n > 0)\n  new_thread(chain, id + 1, n - 1)\n end\n var i = 0\n while (i < n)\n  i += 1\n end\n done(id, i)\nend\n";
static int work(int n, int a) { int s = a; for (int i = 0; i < n; i++) s = (int)((unsigned)(i * 2 + 1) + (unsigned)s * 3u); return s; }
extern "C" void c12_workers() {
  box B(WORK); if (!B.ok) return;
  hval h[2]; int a = nsym_int("a"), b = nsym_int("b"); h_int(h[0], a); h_int(h[1], b);
  if (!B.start("main", 2, h)) return;
  int R = nsym_tier() ? 8 : 5, last = 1 + nsym_choose("last", 3) * 6;
  for (int r = 0; r < R; r++) B.round(1 + nsym_choose("slice", 3) * 4);
  int n = 0;
  while (!B.vm->finished() && n++ < 2000) B.round(last);
  nsym_check(B.vm->finished(), "all threads finish");
  nsym_check(finishes == 5 && errors == 0 && recs->size() == 5, "every thread that was started runs to its end once");
  nsym_check(isint(find(0), (int)((unsigned)a - (unsigned)b)) & isint(find(1), work(2, a)) & isint(find(2), work(3, b)) & isint(find(3), 120), SL);
  const Val *s = find(4); nsym_check(s && s->t == val_type_string && s->s == "x012", SL);
  nsym_check(!B.vm->has_error(), "no thread had an error");
}
//@ entry c12_workers
extern "C" void c12_chain() {
  box B(WORK); if (!B.ok) return;
  hval h[2]; int n = nsym_arg(0); h_int(h[0], 0); h_int(h[1], n);
  if (!B.start("chain", 2, h)) return;
  int sl = nsym_range("slice", 1, 40), k = 0;
  while (!B.vm->finished() && k++ < 4000) {
    B.round(sl);
    // the machine is finished exactly when every started thread is
    nsym_check(B.vm->finished() == (finishes == n + 1), "the machine is finished exactly when all threads are");
  }
  nsym_check(finishes == n + 1 && errors == 0 && (int)recs->size() == n + 1, "every thread that was started runs to its end once");
  for (int i = 0; i <= n; i++) nsym_check(isint(find(i), n - i), SL);
}
//@ entry c12_chain args=0,1,4,9 targs=0,1,2,3,5,9,20,60

// ---- arguments -----------------------------------------------------------------------
extern "C" void c12_args() {
  int k = nsym_arg(0);
  box B("var g\n"
        "function one(id, p)\n var i = 0\n while (i < 5)\n  i += 1\n end\n done(id, p)\nend\n"
        "function many(a, b, c, d, e)\n done(1, a)\n done(2, b)\n done(3, c)\n done(4, d)\n done(5, e)\nend\n"
        "function fill(x, v)\n x[1] = v\n x = none\n g = v\nend\n"
        "function bump(p)\n p = p + 1\n done(1, p)\nend\n"
        "function m0(a)\n var v = a\n new_thread(one, 1, v)\n v = v + 1\n new_thread(one, 2, v)\n a = none\n v = \"x\"\nend\n"
        "function m1(a)\n new_thread(many, a, \"two\", [a, a], 2.5, one)\nend\n"
        "function m2(a)\n var x = [1, 2]\n new_thread(fill, x, a)\n var i = 0\n while (i < 60)\n  i += 1\n end\n done(1, x[1])\n done(2, x[0])\n done(3, g)\nend\n"
        "function m3(a)\n var v = a\n new_thread(bump, v)\n new_thread(bump, v)\n var i = 0\n while (i < 60)\n  i += 1\n end\n done(2, v)\nend\n"
        "function m4(a)\n var s = \"ab\"\n new_thread(one, 1, s + a)\n s = s + \"c\"\n new_thread(one, 2, s)\n new_thread(one, 3, none)\nend\n"
        "function m5(a)\n var f = one\n new_thread(f, 1, a)\n var l = [one]\n new_thread(l[0], 2, a * 2)\n done(3, a)\nend\n");
  if (!B.ok) return;
  int a = nsym_int("a"); if (k == 4) nsym_assume((a == 7) | (a == -3) | (a == 0)); hval h; h_int(h, a);
  char fn[] = "m0"; fn[1] += k; if (!B.start(fn, 1, &h)) return;
  int sl = 1 + nsym_choose("slice", 4) * 5, n = 0;
  while (!B.vm->finished() && n++ < 2000) B.round(sl);
  nsym_check(B.vm->finished() && errors == 0, "all threads finish");
  const char *m = "a thread gets its own copies of its arguments, in order";
  int a1 = (int)((unsigned)a + 1u);
  switch (k) {
  case 0: nsym_check(isint(find(1), a) & isint(find(2), a1), m); break;
  case 1: { const Val *s = find(2), *l = find(3), *f = find(4), *g = find(5);
    nsym_check(isint(find(1), a), m); nsym_check(s && s->t == val_type_string && s->s == "two", m); nsym_check(l && l->t == val_type_array && l->i == 2, m);
    nsym_check(f && f->t == val_type_float && f->f == 2.5f, m); nsym_check(g && g->t == val_type_func && g->s == "one", m); break; }
  case 2: nsym_check(isint(find(1), a) & isint(find(2), 1) & isint(find(3), a), "threads share arrays and globals"); break;
  case 3: nsym_check(isint(find(1), a1) & isint(find(1, 1), a1) & isint(find(2), a), m); break;
  case 4: { const Val *s = find(1), *u = find(2), *z = find(3); char want[32]; snprintf(want, sizeof want, "ab%i", nsym_conc(a));
    nsym_check(s && s->t == val_type_string && s->s == want, m); nsym_check(u && u->t == val_type_string && u->s == "abc", m); nsym_check(z && z->t == val_type_none, m); break; }
  case 5: nsym_check(isint(find(1), a) & isint(find(2), (int)((unsigned)a * 2u)) & isint(find(3), a), m); break;
  }
}
//@ entry c12_args args=0-5

// ---- wait -----------------------------------------------------------------------------
extern "C" void c12_wait() {
  int form = nsym_arg(0);
  box B("function w(id, n)\n done(id, 1)\n wait(n)\n done(id, 2)\nend\n"
        "function deep(id, n)\n done(id, 1)\n var x = 10 + lower(n)\n done(id, 2)\n done(id, x)\nend\nfunction lower(n)\n var l = [n]\n wait(l[0])\n return 5\nend\n"
        "function twice(id, n)\n done(id, 1)\n wait(n)\n done(id, 2)\n wait(n + 1)\n done(id, 3)\nend\n"
        "function flt(id, n)\n done(id, 1)\n wait(n + 0.5)\n done(id, 2)\nend\n"
        "function ticker(id, n)\n var i = 0\n while (i < n)\n  done(id, i)\n  wait(1)\n  i += 1\n end\nend\n"
        "function busy(id, n)\n var i = 0\n while (i < n)\n  i += 1\n end\n done(id, i)\nend\n");
  if (!B.ok) return;
  const char *fn[] = {"w", "deep", "twice", "flt"};
  hval h[2]; h_int(h[0], 1); int n = nsym_int("n"), K = nsym_tier() ? 20 : 8; h_int(h[1], n);
  if (form >= 2) nsym_assume((n < 1000000) & (n > -1000000));
  bool before = nsym_choose("order", 2);
  auto others = [&] { hval q[2]; h_int(q[0], 50); h_int(q[1], 4); B.start("ticker", 2, q); h_int(q[0], 60); h_int(q[1], 30); B.start("busy", 2, q); };
  if (before) others();
  if (!B.start(fn[form], 2, h)) return;
  if (!before) others();
  int big = 10000, fin_at = -1;
  // decide when the waiting thread must be heard of again
  int nn = n < 0 ? 0 : n;   // rounds it sits out
  int seen2 = 0;
  for (int r = 1; r <= K; r++) {
    B.round(big);
    const Val *two = nullptr; for (auto &x : *recs) if (x.id == 1 && x.v.t == val_type_int && x.v.i == 2) { two = &x.v; if (!seen2) seen2 = r; }
    if (r == 1) nsym_check(find(1) != nullptr, "a thread that is not waiting runs in every round");
    // started in round 1: with n > 0 it continues in round n + 2
    nsym_check((two != nullptr) == (nn == 0 ? 1 : (r >= 2 && nn <= r - 2)), "wait(n) suspends the thread for exactly n rounds");
    // the others never notice
    int ticks = 0; for (auto &x : *recs) if (x.id == 50) ticks++;
    nsym_check(ticks == (r + 1) / 2 || (r > 8 && ticks == 4), "waiting suspends just that thread");
    nsym_check(find(60) != nullptr, "waiting suspends just that thread");
  }
  int pos = n > K - 2;
  nsym_check(!pos || !B.vm->finished(), "the machine is finished exactly when all threads are");
  nsym_check(errors == 0, "no thread had an error");
  if (form == 1 && seen2) nsym_check(isint(find(1, 2), 15), "a thread that waited continues where it was");
  if (form == 2 && seen2) {
    int third = 0; for (auto &x : *recs) if (x.id == 1 && x.v.i == 3) third = x.round;
    int n1 = n + 1 < 0 ? 0 : n + 1, due = seen2 + (n1 ? n1 + 1 : 0);
    nsym_check(due > K ? third == 0 : third == due, "each wait suspends the thread for exactly its own number of rounds");
  }
}
//@ entry c12_wait args=0-3
// the instruction after a wait, under small slices
extern "C" void c12_wait_slices() {
  box B("function w(id, n)\n var k = 1\n wait(n)\n k += 1\n wait(1)\n done(id, k)\n return k\nend\n");
  if (!B.ok) return;
  hval h[2]; h_int(h[0], 1); int n = nsym_choose("n", 4); h_int(h[1], n);
  thread_t *t = B.start("w", 2, h); if (!t) return;
  int sl = nsym_range("slice", 1, 30), k = 0;
  while (!t->finished() && k++ < 200) {
    int w0 = t->waits, pc0 = t->get_pc();
    B.round(sl);
    if (w0 > 0) nsym_check(t->get_pc() == pc0 && !t->finished(), "a waiting thread runs nothing");
  }
  nsym_check(t->finished() && !t->has_error() && isint(find(1), 2) && recs->size() == 1, SL);
}
//@ entry c12_wait_slices
extern "C" void c12_wait_bad() {
  int k = nsym_arg(0);
  const char *arg[] = {"\"s\"", "none", "[1]", "w"};
  box B(std::string("function w(id)\n wait(") + arg[k] + ")\n done(id, 2)\nend\nfunction ok(id)\n done(id, 1)\n wait(1)\n done(id, 2)\nend\n");
  if (!B.ok) return;
  hval h; h_int(h, 1); if (!B.start("w", 1, &h)) return; h_int(h, 2); if (!B.start("ok", 1, &h)) return;
  int n = 0; while (!B.vm->finished() && n++ < 20) B.round(100);
  nsym_check(errors == 1 && finishes == 2 && !find(1) && isint(find(2), 1) && isint(find(2, 1), 2), "a bad wait ends just that thread with an error");
}
//@ entry c12_wait_bad args=0-3

// ---- errors -------------------------------------------------------------------------------
extern "C" void c12_errors() {
  int kind = nsym_arg(0);
  const char *bad[] = {"x = 10 / d", "x = l[d]", "x = l + d", "x = undefd(l, d)", "new_thread(1, d)", "new_thread(good, 1)", "x = len(d)"};
  // in all of these d == 0 is an error and anything else only sometimes
  std::string src = std::string("var undefd\nfunction bad(id, d)\n var l = [7]\n var x = 0\n var i = 0\n while (i < 3)\n  i += 1\n end\n done(id, 1)\n ") + bad[kind] + "\n done(id, 2)\nend\n"
    "function good(id, n)\n var i = 0\n while (i < n)\n  i += 1\n end\n done(id, i)\nend\n";
  box B(src); if (!B.ok) return;
  hval h[2]; int a = nsym_choose("slice", 5) * 4 + 1, d = nsym_int("d"), n = 0;
  bool fails = kind == 0 ? d == 0 : kind == 1 ? d != 0 : true;
  int order = nsym_choose("order", 3);
  for (int k = 0; k < 3; k++) {
    if (k == order) { h_int(h[0], 1); h_int(h[1], d); if (!B.start("bad", 2, h)) return; }
    else { h_int(h[0], 10 + k); h_int(h[1], 5 + k); if (!B.start("good", 2, h)) return; }
  }
  int fail_rounds = 0;
  while (!B.vm->finished() && n++ < 600) { if (!B.round(a)) { fail_rounds++; nsym_check(B.vm->has_error(), "an error in a thread shows in the machine's error query"); } }
  nsym_check(B.vm->finished(), "an error in one thread leaves the others able to finish");
  for (int k = 0; k < 3; k++) if (k != order) nsym_check(isint(find(10 + k), 5 + k), "an error in one thread leaves the others able to finish");
  nsym_check(isint(find(1), 1), "statements before the error run");
  nsym_check((find(1, 1) == nullptr) == fails, "nothing of a thread runs after its error");
  nsym_check(errors == (fails ? 1 : 0) && fail_rounds == (fails ? 1 : 0) && finishes == 3, "an error is reported once, for its thread only");
}
//@ entry c12_errors args=0-6

// ---- many threads, much garbage ----------------------------------------------------------
extern "C" void c12_heap() {
  int nt = nsym_arg(0), sl = nsym_arg(1);
  std::string big(4000, 'y');
  box B("var shared = [1, 2]\nfunction big()\n return \"" + big + "\"\nend\nfunction go(id, n, a)\n var keep = [id, a, \"k\" + id]\n var i = 0\n while (i < n)\n  var s = big() + i\n  keep = [keep[0], keep[1], keep[2]]\n  i += 1\n end\n shared[0] = shared[0] + 1\n done(id, keep[1])\n done(id, keep[0])\n done(id, keep[2])\nend\n");
  if (!B.ok) return;
  int a = nsym_int("a"); hval h[3];
  for (int k = 0; k < nt; k++) { h_int(h[0], k); h_int(h[1], 20 + k % 3); h_int(h[2], (int)((unsigned)a + (unsigned)k)); if (!B.start("go", 3, h)) return; }
  int n = 0; while (!B.vm->finished() && n++ < 3000) B.round(sl);
  nsym_check(B.vm->finished() && errors == 0 && finishes == nt, "all threads finish");
  for (int k = 0; k < nt; k++) {
    nsym_check(isint(find(k, 0), (int)((unsigned)a + (unsigned)k)) & isint(find(k, 1), k), "threads that fill the heap keep their own values");
    const Val *s = find(k, 2); nsym_check(s && s->t == val_type_string && s->s == "k" + std::to_string(k), "threads that fill the heap keep their own values");
  }
  value_t *g = B.vm->globals()[0];
  nsym_check(g->array_size() == 2 && g->array()[1]->v == 2, "threads share arrays and globals");
}
//@ entry c12_heap args=3,17 args1=7,1000 steps=2000000000 targs=3,17,60 targs1=1,7,50,1000
// ---- the result of a finished thread stays what it is while others run, allocate and collect ------
extern "C" void c12_results() {
  int k = nsym_arg(0), a = nsym_int("a"), i = nsym_choose("i", 2), how = nsym_choose("how", 3);
  Prog p = share_prog(k); Interp I(p); I.init(); Val want = I.run("main", {Val::Int(a), Val::Int(i)}); if (I.bad()) return;
  world w; w.add("t", 1, host_t); MUST_COMPILE(w, text(p) + "function busy9(n)\n var s = \"\"\n while (n > 0)\n  s = [\"other\" + n, s, 3 * n]\n  n -= 1\n end\n return s\nend\n");
  host_trace().clear(); host_prog() = &w.prog; vm_t vm(w.prog); nsym_check(vm.call_init(), "globals are initialised");
  hval h[2]; h_int(h[0], a); h_int(h[1], i); const value_t *av[2] = {h[0].p, h[1].p};
  thread_t *t = vm.new_thread(*w.prog.function_find("main"), 2, av); nsym_check(t != nullptr, "a thread can be started"); if (!t) return;
  int n = 0; while (!t->finished() && n++ < 2000) t->resume(1000); nsym_check(t->finished() && !t->has_error(), SL); if (!t->finished() || t->has_error()) return;
  hval b[1]; h_int(b[0], 3); const value_t *bv[1] = {b[0].p}; thread_t *u = vm.new_thread(*w.prog.function_find("busy9"), 1, bv); nsym_check(u != nullptr, "a thread can be started"); if (!u) return;
  for (n = 0; !u->finished() && n < 2000; n++) { if (how == 0) u->step_inst(); else if (how == 1) u->step_line(); else u->resume(1); }
  nsym_check(u->finished() && !u->has_error(), SL);
  if (how == 2) { value_t *r = nullptr; thread_error_t e; nsym_check(vm.call_once(*w.prog.function_find("busy9"), 1, bv, r, e) && vm.call_once(*w.prog.function_find("busy9"), 1, bv, r, e), SL); }
  Deep d(I, w.prog); int ok = d.eq(want, t->get_return_value()); nsym_check(ok, "the result of a finished thread stays until it is dropped");
}
//@ entry c12_results args=0-17
// ---- a thread has the argument values of the moment it was started, whatever the host does with its own afterwards
extern "C" void c12_take() {
  int n = nsym_arg(0), k = n ? nsym_choose("k", n) : 0, via = nsym_choose("via", 3), a = nsym_int("a"), b = nsym_int("b");
  std::string s = "function main("; for (int j = 0; j < n; j++) s += (j ? ", p" : "p") + std::to_string(j); s += ")\n var l = [" + (n ? "p" + std::to_string(k) : std::string("5")) + ", " + (n ? "p0" : "6") + ", " + (n ? "p" + std::to_string(n - 1) : "7") + "]\n return l\nend\n";
  world w; MUST_COMPILE(w, s); vm_t vm(w.prog); nsym_check(vm.call_init(), "globals are initialised");
  hval h[10]; const value_t *av[10]; auto kind = [&](int j) { return j % 3; };
  for (int j = 0; j < n; j++) { if (kind(j) == 0) h_int(h[j], (int)((uint32_t)a + j)); else if (kind(j) == 1) h_float_bits(h[j], 0x3f800000u + j * 4096); else h_str(h[j], "first", 5); av[j] = h[j].p; }
  thread_t *t = vm.new_thread(*w.prog.function_find("main"), n, av), *u = nullptr; nsym_check(t != nullptr, "a thread can be started"); if (!t) return;
  if (via == 1) t->resume(2);
  for (int j = 0; j < n; j++) { if (kind(j) == 0) h_int(h[j], b); else if (kind(j) == 1) h_float_bits(h[j], 0x40000000u); else h_str(h[j], "other", 5); }
  if (via == 2) { u = vm.new_thread(*w.prog.function_find("main"), n, av); for (int c = 0; c < 200 && !u->finished(); c++) u->step_inst(); }
  for (int c = 0; c < 200 && !t->finished(); c++) t->step_inst();
  nsym_check(t->finished() && !t->has_error(), "threads take their arguments"); if (!t->finished() || t->has_error()) return;
  value_t **r = t->get_return_value()->array(); int at[3] = {k, 0, n - 1};
  for (int q = 0; q < 3; q++) { int j = at[q]; value_t *v = r[q]; bool ok; if (!n) ok = v->is_a<val_type_int>() && v->v == 5 + q; else if (kind(j) == 0) ok = v->is_a<val_type_int>() && v->v == (int)((uint32_t)a + j); else if (kind(j) == 1) ok = v->is_a<val_type_float>() && (uint32_t)v->v == 0x3f800000u + j * 4096; else ok = v->is_a<val_type_string>() && !strcmp(v->string(), "first"); nsym_check(ok, "a thread keeps the arguments it was started with"); }
}
//@ entry c12_take args=0-8
//@ bounds 18 programs, one thread: first two slices of any length (second up to 6, thorough 40), then slices of 1, 3 or unlimited; 9 programs in two threads: every schedule with at most 2 (thorough 3) preemptions at any instruction
//@ bounds five script-started threads with slices from {1,5,9} in each of the first 5 (thorough 8) rounds; spawn chains up to 10 (thorough 61); wait(n) for all n observed over 8 (thorough 20) rounds; all values of integer arguments
//@ bounds threads of 0-8 arguments of three kinds whose host values change before, while and after they run
//@ outside a host that calls the machine from several operating system threads
