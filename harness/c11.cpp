// C11: garbage collection
#include "deep.hpp"
using namespace ref;
static const char *M = "collections between instructions do not change what a script computes";
static void check_done(Interp &I, Val &want, world &w, vm_t &vm, thread_t *t) {
  if (I.bad()) { nsym_check(t->get_error() == I.err, M); return; }
  nsym_check(!t->has_error(), M);
  if (t->has_error()) return;
  Deep d(I, w.prog);
  int ok = d.eq(want, t->get_return_value());
  const auto &g = vm.globals();
  nsym_check(g.size() == I.glob.size(), M);
  for (size_t k = 0; k < g.size() && k < I.glob.size(); k++) ok &= d.eq(I.glob[k].second, g[k]);
  nsym_check(ok, M);
  auto &tr = host_trace();
  nsym_check(tr.size() == I.trace.size(), M);
  for (size_t k = 0; k < tr.size() && k < I.trace.size(); k++) nsym_check(same(tr[k], I.trace[k]), M);
  nsym_out((int)g.size());
}
// mode 0: before every instruction; 1: once; 2: twice; 3: every subset of a window
extern "C" void c11_when() {
  int k = nsym_arg(0), mode = nsym_arg(1);
  Prog p = share_prog(k); Interp I(p); I.init();
  int a = nsym_int("a"), i = nsym_choose("i", mode == 3 ? 1 : 2) + 0;
  Val want = I.run("main", {Val::Int(a), Val::Int(i)});
  std::string src = text(p) + "function zz()\n return [\"z\", 1]\nend\n"; nsym_note(src.c_str());
  world w; w.add("t", 1, host_t); MUST_COMPILE(w, src);
  host_trace().clear(); host_prog() = &w.prog;
  vm_t vm(w.prog); nsym_check(vm.call_init(), "globals are initialised");
  hval h[2]; h_int(h[0], a); h_int(h[1], i); const value_t *av[2] = {h[0].p, h[1].p};
  thread_t *t = vm.new_thread(*w.prog.function_find("main"), 2, av);
  nsym_check(t != nullptr, "a thread can be started"); if (!t) return;
  int W = nsym_tier() ? 8 : 5;
  int first = -1, second = -1, n = 0;
  int bits = 0;
  while (!t->finished() && n < 3000) {
    bool gc = mode == 0;
    if (mode == 1 || mode == 2) {
      // fork at each boundary until the collections are placed
      if (first < 0 || (mode == 2 && second < 0 && n < first + (nsym_tier() ? 60 : 6))) if (nsym_choose("gc", 2)) { gc = true; if (first < 0) first = n; else second = n; }
    }
    if (mode == 3) {
      if (first < 0) { if (nsym_choose("from", 2)) { first = n; gc = true; bits = 1; } }
      else if (bits < W) { bits++; gc = nsym_choose("gc", 2) != 0; }
    }
    if (gc) t->step_inst(); else t->resume(1);
    n++;
  }
  nsym_check(t->finished(), "the script ends"); if (!t->finished()) return;
  check_done(I, want, w, vm, t);
  // the result itself, and the globals, survive later collections
  if (!I.bad() && mode < 2) {
    value_t *rv = nullptr; thread_error_t e; bool ok = true;
    for (int r = 0; r < 2; r++) ok &= vm.call_once(*w.prog.function_find("zz"), 0, nullptr, rv, e);
    nsym_check(ok && rv->is_a<val_type_array>() && rv->array_size() == 2, M);
    check_done(I, want, w, vm, t);
  }
}
//@ entry c11_when args=0-17 args1=0-3 time=100
// values held by one thread while another runs and collects (programs that share nothing through globals)
extern "C" void c11_threads() {
  int k = nsym_arg(0), a = nsym_int("a"), mode = nsym_choose("mode", 3);
  Prog p = share_prog(k); std::string src = text(p);
  world w; w.add("t", 1, host_t); MUST_COMPILE(w, src);
  host_trace().clear(); host_prog() = &w.prog; vm_t vm(w.prog); nsym_check(vm.call_init(), "globals are initialised");
  hval h[2]; h_int(h[0], a); h_int(h[1], 1); const value_t *av[2] = {h[0].p, h[1].p};
  const function_t &f = *w.prog.function_find("main");
  thread_t *t = vm.new_thread(f, 2, av);
  int n = 0;
  while (!t->finished() && !nsym_choose("stop", 2)) { t->resume(1); n++; }   // stop the first thread anywhere
  thread_t *u = vm.new_thread(f, 2, av);
  int c = 0;
  while (!u->finished() && c < 3000) { if (mode == 0) u->step_inst(); else { u->resume(1); if (mode == 2 && c % 3 == 0 && !t->finished()) t->step_inst(); } c++; }
  if (mode == 1) { thread_t *z = vm.new_thread(f, 2, av); while (!z->finished() && c < 3000) { z->step_inst(); c++; } }
  while (!t->finished() && n < 3000) { t->resume(1); n++; }
  bool ok = t->finished() && u->finished() && !t->has_error() && !u->has_error();
  nsym_check(ok, "threads finish whatever collections other threads cause"); if (!ok) return;
  Interp J(p); J.init(); Val w1 = J.run("main", {Val::Int(a), Val::Int(1)}); Deep d1(J, w.prog), d2(J, w.prog);
  nsym_check(d1.eq(w1, t->get_return_value()), "a thread's values survive collections caused by other threads");
  nsym_check(d2.eq(w1, u->get_return_value()), "a thread's values survive collections caused by other threads");
}
//@ entry c11_threads args=3,5,6,10,11,14,16
// values of a thread that waits, has failed or has finished while others collect
extern "C" void c11_waiting() {
  int n = nsym_arg(0), how = nsym_arg(1), a = nsym_int("a"), k = 1 + nsym_choose("k", 3);
  world w; MUST_COMPILE(w, "var g\nfunction hold(x)\n return x\nend\nfunction main(a, n)\n var x = [a, \"s\" + \"t\", [a]]\n var y = \"u\" + a % 2\n var r = [x, \"p\" + \"q\", hold([a + 1]), wait(n), [x, y]]\n g = r\n return r\nend\nfunction busy()\n var i = 0\n var l = [\"v\", [1, 2]]\n for (i = 0 to 3)\n  l = [l, \"w\" + i, [i, i, i, i]]\n end\n return [l]\nend\n");
  vm_t vm(w.prog); nsym_check(vm.call_init(), "globals are initialised");
  hval h[2]; h_int(h[0], a); h_int(h[1], n); const value_t *av[2] = {h[0].p, h[1].p};
  thread_t *t = vm.new_thread(*w.prog.function_find("main"), 2, av);
  vm.resume(4000); int rounds = 0;
  auto churn = [&] {
    thread_error_t e; value_t *o = nullptr; const function_t &f = *w.prog.function_find("busy");
    if (how == 0) nsym_check(vm.call_once(f, 0, nullptr, o, e), M);
    else { thread_t *u = vm.new_thread(f, 0, nullptr); for (int c = 0; c < 60 && !u->finished(); c++) if (how == 1) u->step_inst(); else u->resume(3); if (how == 2) { nsym_check(vm.call_once(f, 0, nullptr, o, e), M); } }
  };
  for (int c = 0; c < k; c++) churn();
  while (!t->finished() && rounds < 12) { vm.resume(4000); rounds++; if (nsym_choose("again", 2)) churn(); }
  nsym_check(t->finished() && !t->has_error(), M); if (!t->finished() || t->has_error()) return;
  churn();
  value_t *r = t->get_return_value(); auto isI = [](value_t *v, int x) { return v->is_a<val_type_int>() && v->v == x; };
  auto isS = [](value_t *v, const char *x) { return v->is_a<val_type_string>() && v->strlen() == strlen(x) && !strcmp(v->string(), x); };
  bool ok = r == vm.globals()[0] && r->is_a<val_type_array>() && r->array_size() == 5; nsym_check(ok, M); if (!ok) return;
  value_t **p = r->array(); ok = p[0]->is_a<val_type_array>() && p[0]->array_size() == 3 && p[2]->is_a<val_type_array>() && p[4]->is_a<val_type_array>() && p[4]->array_size() == 2; nsym_check(ok, M); if (!ok) return;
  value_t **x = p[0]->array(); char u[3] = {'u', (char)('0' + a % 2), 0};
  nsym_check(isI(x[0], a) && isS(x[1], "st") && x[2]->is_a<val_type_array>() && isI(x[2]->array()[0], a) && isS(p[1], "pq") && isI(p[2]->array()[0], (int)((uint32_t)a + 1)) && isI(p[3], 0) && p[4]->array()[0] == p[0] && p[4]->array()[1]->is_a<val_type_string>() && p[4]->array()[1]->string()[0] == 'u', "the values of a waiting thread survive collections");
  (void)u;
}
//@ entry c11_waiting args=0,1,2,3,5 args1=0-2
// heaps that fill up: the collector runs on its own
extern "C" void c11_fill() {
  int k = nsym_arg(0), a = nsym_int("a"), n = nsym_arg(1);
  std::string big(8000, 'x'); // 8 KB of garbage per round
  std::string s = "var g = [1, 2, 3]\nvar h\nfunction big()\n return \"" + big + "\"\nend\nfunction junk(i)\n var x = [big(), i]\n x[0] = x\n return i\nend\nfunction main(a, n)\n";
  switch (k) {
  case 0: s += " var keep = [a, \"k\", [a]]\n var i = 0\n while (i < n)\n  var t = big() + i\n  i += 1\n end\n return [keep, i]\n"; break;
  case 1: s += " var i = 0\n var keep = [a, \"k\", [a]]\n while (i < n)\n  junk(i)\n  i += 1\n end\n return [keep, i]\n"; break;
  case 2: s += " var i = 0\n var keep = [a, \"k\", [a]]\n while (i < n)\n  h = [h, big()]\n  if (i % 8 == 7)\n   h = none\n  end\n  i += 1\n end\n return [keep, i]\n"; break;
  case 3: s += " var keep = [a, \"k\", [a]]\n var i = 0\n while (i < n)\n  var q = new_array(1000)\n  q[999] = q\n  q[0] = keep\n  i += 1\n end\n return [keep, i]\n"; break;
  case 4: s += " var keep = [a, \"k\", [a]]\n var i = rec(n / 10, a) - a\n return [keep, i * 10]\nend\nfunction rec(d, a)\n var l = [big(), d]\n if (d == 0)\n  return a\n end\n l = l[1]\n junk(1)\n junk(2)\n return rec(d - 1, a) + 1\n"; break;
  case 5: s += " var keep = [a, \"k\", [a]]\n var i = 0\n while (i < n)\n  keep[1] = \"k\" + big()\n  keep[1] = \"k\"\n  keep = [keep[0], keep[1], keep[2]]\n  i += 1\n end\n return [keep, i]\n"; break;
  case 6: s += " var keep = [a, \"k\", [a]]\n var i = 0\n while (i < n)\n  if (len(big() + big()) == 16000 and len([big(), junk(i)]) == 2)\n   i += 1\n  end\n end\n return [keep, i]\n"; break;
  }
  s += "end\n";
  world w; MUST_COMPILE(w, s);
  vm_t vm(w.prog); vm.call_init(); hval h[2]; h_int(h[0], a); h_int(h[1], n);
  result r = run(vm, "main", 2, h);
  nsym_check(r.ok, "garbage does not accumulate");
  if (!r.ok) return;
  value_t *keep = r.v->array()[0], *i = r.v->array()[1];
  nsym_check(i->is_a<val_type_int>() && i->v == n, "a script that makes much garbage computes the same");
  nsym_check(keep->is_a<val_type_array>() && keep->array_size() == 3 && keep->array()[0]->v == a && keep->array()[0]->is_a<val_type_int>() && keep->array()[1]->is_a<val_type_string>() && keep->array()[1]->strlen() == 1 && keep->array()[1]->string()[0] == 'k' && keep->array()[2]->is_a<val_type_array>() && keep->array()[2]->array()[0]->v == a, "live values survive collections");
  value_t *g = vm.globals()[0];
  nsym_check(g->is_a<val_type_array>() && g->array_size() == 3 && g->array()[2]->v == 3, "globals survive collections");
}
//@ entry c11_fill args=0-6 args1=300 targs1=300,1500 steps=3000000000
// much live data: kept whole across collections, or the out-of-memory error
extern "C" void c11_live() {
  int n = nsym_arg(0), a = nsym_int("a");
  std::string big(8000, 'x');
  std::string s = "function big()\n return \"" + big + "\"\nend\nfunction main(a, n)\n var l = new_array(n)\n var i = 0\n while (i < n)\n  l[i] = big() + (i % 10)\n  i += 1\n end\n i = 0\n while (i < 100)\n  l[i % n] = big() + (i % n % 10)\n  i += 1\n end\n return l\nend\n";
  world w; MUST_COMPILE(w, s);
  vm_t vm(w.prog); vm.call_init(); hval h[2]; h_int(h[0], a); h_int(h[1], n);
  result r = run(vm, "main", 2, h);
  if (n >= 140) { nsym_check(r.is_err(thread_error_t::e_out_of_memory), "live values that do not fit end the script with the out-of-memory error"); result q = run(vm, "big"); nsym_check(q.ok && q.v->strlen() == 8000, "the machine can be used after running out of memory"); return; }
  nsym_check(r.ok && r.v->array_size() == n, "live values that fit are kept");
  if (!r.ok) return;
  int bad = 0;
  for (int i = 0; i < n; i++) { value_t *v = r.v->array()[i]; if (!v->is_a<val_type_string>() || v->strlen() != 8001 || v->string()[0] != 'x' || v->string()[7999] != 'x' || v->string()[8000] != (char)('0' + i % 10) || v->string()[8001] != 0) bad++; }
  nsym_check(bad == 0, "live values keep their contents");
}
//@ entry c11_live args=10,60,90,140,400 steps=3000000000
// results handed back to the host and in again
extern "C" void c11_host() {
  int k = nsym_arg(0), a = nsym_int("a");
  world w; MUST_COMPILE(w, "var g\nfunction make(a)\n var x = [a, \"s\", none]\n x[2] = x\n g = x\n return x\nend\nfunction use(x)\n x[1] = \"changed\"\n return [x, g, x[2]]\nend\nfunction nop()\n return [1, 2]\nend\n");
  vm_t vm(w.prog); vm.call_init(); hval h; h_int(h, a);
  result r = run(vm, "make", 1, &h); nsym_check(r.ok && r.v->is_a<val_type_array>(), M); if (!r.ok) return;
  for (int j = 0; j < k; j++) run(vm, "nop");
  value_t *x = k ? vm.globals()[0] : r.v; const value_t *av[1] = {x};
  value_t *o = nullptr; thread_error_t e;
  bool ok = vm.call_once(*w.prog.function_find("use"), 1, av, o, e);
  nsym_check(ok && o->array_size() == 3, M); if (!ok) return;
  value_t **p = o->array();
  nsym_check(p[0] == p[1] && p[1] == p[2] && p[0] == vm.globals()[0], "an array handed back to a script is still the same array");
  nsym_check(p[0]->array()[0]->is_a<val_type_int>() && p[0]->array()[0]->v == a && p[0]->array()[1]->strlen() == 7 && p[0]->array()[2] == p[0], M);
}
//@ entry c11_host args=0-2
// many roots, long arrays and strings, deep chains and stacks, many threads
static bool isarr(value_t *v, int x) { return v->is_a<val_type_array>() && v->array_size() == 2 && v->array()[0]->is_a<val_type_int>() && v->array()[0]->v == x && v->array()[1]->is_a<val_type_string>() && !strcmp(v->array()[1]->string(), "st"); }
static void stir(thread_t *t, int every) { int c = 0; while (!t->finished() && c < 400000) { if (++c % every == 0) t->step_inst(); else t->resume(1); } }
static std::string T(int k) { return std::to_string(k); }
extern "C" void c11_sizes() {
  int k = nsym_arg(0), n = nsym_arg(1), a = nsym_int("a"); int lim[] = {300, 300, 5000, 5000, 130, 5000, 40, 300, 300}; if (n > lim[k]) return;
  std::string s = "var s = \"s\"\nfunction mk(x)\n return [x, s + \"t\"]\nend\nfunction nop()\n return [1]\nend\n";
  switch (k) {
  case 0: for (int j = 0; j < n; j++) s += "var g" + T(j) + " = none\n"; s += "function main(a)\n"; for (int j = 0; j < n; j++) s += " g" + T(j) + " = mk(a + " + T(j) + ")\n"; s += " return nop()\nend\n"; break;
  case 1: s += "function main(a)\n"; for (int j = 0; j < n; j++) s += " var l" + T(j) + " = mk(a + " + T(j) + ")\n"; s += " nop()\n return ["; for (int j = 0; j < n; j++) s += (j ? ", l" : "l") + T(j); s += "]\nend\n"; break;
  case 2: case 3: s += "function main(a)\n var l = new_array(" + T(n) + ")\n var i = 0\n while (i < " + T(n) + ")\n  l[i] = " + (k == 2 ? "mk(a + i)" : "a + i") + "\n  i += 1\n end\n nop()\n return l\nend\n"; break;
  case 4: s += "function rec(d, a)\n var l = mk(a + d)\n if (d == 0)\n  return [l, none]\n end\n var r = rec(d - 1, a)\n return [l, r]\nend\nfunction main(a)\n return rec(" + T(n - 1) + ", a)\nend\n"; break;
  case 5: s += "function main(a)\n var l = none\n var i = 0\n while (i < " + T(n) + ")\n  l = [mk(a + i), l]\n  i += 1\n end\n nop()\n return l\nend\n"; break;
  case 6: s += "function main(a)\n var l = mk(a)\n wait(1)\n var m = mk(a + 1)\n wait(2)\n return [l, m]\nend\n"; break;
  case 7: s += "function main(a)\n return ["; for (int j = 0; j < n; j++) s += std::string(j ? ", " : "") + "mk(a + " + T(j) + ")"; s += "]\nend\n"; break;
  case 8: s += "function main(a)\n var x = mk(a)\n var l = ["; for (int j = 0; j < n; j++) s += j ? ", x" : "x"; s += "]\n nop()\n x[0] = a + 1\n return l\nend\n"; break;
  }
  world w; MUST_COMPILE(w, s);
  vm_t vm(w.prog); nsym_check(vm.call_init(), "globals are initialised"); hval h; h_int(h, a); const value_t *av[1] = {h.p};
  const function_t &f = *w.prog.function_find("main"), &nop = *w.prog.function_find("nop"); value_t *o = nullptr; thread_error_t e;
  std::vector<thread_t *> th; for (int j = 0; j < (k == 6 ? n : 1); j++) th.push_back(vm.new_thread(f, 1, av));
  int every = n > 1000 ? 997 : n > 60 ? 97 : n > 8 ? 13 : 1;
  if (k == 6) { for (int r = 0; r < 8 && !vm.finished(); r++) { vm.resume(100); thread_t *u = vm.new_thread(nop, 0, nullptr); stir(u, 1); } }
  else stir(th[0], every);
  thread_t *t = th[0]; for (thread_t *x : th) { nsym_check(x->finished() && !x->has_error(), M); if (!x->finished() || x->has_error()) return; }
  thread_t *u = vm.new_thread(nop, 0, nullptr); stir(u, 1);
  value_t *r = t->get_return_value(); int bad = 0; auto A = [&](int j) { return (int)((uint32_t)a + (uint32_t)j); };
  switch (k) {
  case 0: nsym_check((int)vm.globals().size() == n + 1, M); for (int j = 0; j < n; j++) bad += !isarr(vm.globals()[j + 1], A(j)); break;
  case 1: case 2: case 3: case 7: nsym_check(r->is_a<val_type_array>() && r->array_size() == n, M); for (int j = 0; j < n; j++) { value_t *v = r->array()[j]; bad += k == 3 ? !(v->is_a<val_type_int>() && v->v == A(j)) : !isarr(v, A(j)); } break;
  case 4: case 5: for (int j = n - 1; j >= 0 && !bad; j--) { bad += !(r->is_a<val_type_array>() && r->array_size() == 2 && isarr(r->array()[0], A(j))); if (!bad) r = r->array()[1]; } bad += !r->is_a<val_type_none>(); break;
  case 6: for (thread_t *x : th) { value_t *v = x->get_return_value(); bad += !(v->is_a<val_type_array>() && v->array_size() == 2 && isarr(v->array()[0], a) && isarr(v->array()[1], A(1))); } break;
  case 8: nsym_check(r->is_a<val_type_array>() && r->array_size() == n, M); for (int j = 0; j < n; j++) bad += !(r->array()[j] == r->array()[0] && isarr(r->array()[j], A(1))); break;
  }
  nsym_check(bad == 0, "every reachable value survives a collection, however many there are"); nsym_check(vm.call_once(nop, 0, nullptr, o, e), M);
}
//@ entry c11_sizes args=0-8 args1=1,2,8,16,17,31,32,33,40,64,65,127,128,129,130,200,256,257,300,1000,5000 steps=2000000000 time=100
extern "C" void c11_strings() { // strings of any length
  static const int L[] = {0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1025, 4096, 32767, 32769, 65535, 65536, 65537, 100000};
  int n = L[nsym_arg(0)], a = nsym_int("a"), where = nsym_choose("where", 3); std::string x(n, 'y'); for (int j = 0; j < n; j++) x[j] = (char)('a' + (j * 7 + j / 26) % 26);
  std::string s = "var g\nfunction main(a)\n var l = \"" + x + "\"\n var z = [a, \"" + x + "\" + (a == 0), l]\n g = l\n var q = [l + \"\"]\n return [z, g, q, l, a]\nend\n";
  world w; MUST_COMPILE(w, s); vm_t vm(w.prog); nsym_check(vm.call_init(), M); hval h; h_int(h, a); const value_t *av[1] = {h.p};
  thread_t *t = vm.new_thread(*w.prog.function_find("main"), 1, av); stir(t, where == 0 ? 1 : where == 1 ? 5 : 1000); nsym_check(t->finished() && !t->has_error(), M); if (!t->finished() || t->has_error()) return;
  thread_t *u = vm.new_thread(*w.prog.function_find("main"), 1, av); stir(u, 4);
  auto is = [&](value_t *v, const std::string &y) { return v->is_a<val_type_string>() && v->strlen() == y.size() && !memcmp(v->string(), y.data(), y.size()) && v->string()[y.size()] == 0; };
  value_t **r = t->get_return_value()->array(); value_t **z = r[0]->array();
  nsym_check(is(z[1], x + (a == 0 ? "1" : "0")) && is(z[2], x) && is(r[1], x) && is(r[2]->array()[0], x) && is(r[3], x) && is(vm.globals()[0], x) && r[4]->v == a && z[0]->v == a, "a string of any length survives a collection whole");
}
//@ entry c11_strings args=0-28 steps=2000000000 time=100
//@ bounds 18 programs with shared, nested, cyclic arrays, strings and pending operands; a collection before every instruction, before any one, any two (six instructions apart at most; thorough any), any subset of a window of 5 (thorough 8) instructions; all values of the integer argument
//@ bounds churn of 300 (thorough 1500) rounds of 8 KB garbage in a 1 MB heap; live sets up to 90 strings of 8 KB
//@ bounds a thread waiting 0 to 5 rounds with pending operands while other threads collect one to three times before each round
//@ bounds 1-300 globals, locals and pending operands, arrays and chains of 1-5000, recursion 130 deep, 40 waiting threads, strings of 0-100000 characters, at boundary sizes with collections every 1 to 997 instructions
//@ outside collections inside a system call; other heap sizes
