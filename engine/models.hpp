// Models of the harness API, LLVM intrinsics, and the external functions the
// code under test calls.  Anything not listed here and not defined in the
// bitcode ends the path as "incomplete" (never as success).
#define A(i) (c.a[i])
#define ADDR(i) (c.ex->concretize(*c.s, c.a[i], 64))
#define NUM(i, w) (c.ex->concretize(*c.s, c.a[i], w))

static std::map<std::pair<std::string, unsigned>, unsigned> varids;
static Expr *getvar(State &s, const std::string &nm, unsigned w, unsigned idx) {
  auto k = std::make_pair(nm, idx); auto it = varids.find(k); unsigned id;
  if (it == varids.end()) { id = X.newvar(nm, w, idx)->v; varids[k] = id; } else id = it->second;
  while (s.dom.size() <= id) s.dom.push_back(TT{~0ull, ~0ull, ~0ull, ~0ull});
  if (X.vars[id].w < 8) s.dom[id] = TT{mask(1u << X.vars[id].w), 0, 0, 0};
  if (s.model.size() <= id) s.model.resize(id + 1);
  return X.varexpr[id];
}
static std::string uniq(State &s, const std::string &nm) {
  unsigned occ = 0;
  for (auto &n : s.notes) if (n == "var " + nm) occ++;
  s.notes.push_back("var " + nm);
  return occ ? nm + "#" + std::to_string(occ) : nm;
}
static void make_sym(CallCtx &c, uint64_t p, uint64_t n, const std::string &nm0, bool bytes) {
  State &s = *c.s; std::string nm = uniq(s, nm0);
  if (!bytes && (n == 1 || n == 2 || n == 4 || n == 8)) { c.ex->store(s, p, n * 8, Val{getvar(s, nm, n * 8, 0), 0}); return; }
  for (uint64_t i = 0; i < n; i++) c.ex->store(s, p + i, 8, Val{getvar(s, nm, 8, i), 0});
}
static void do_check(CallCtx &c, const Val &v, const std::string &msg) {
  State &s = *c.s; ChkStat &k = checks[msg]; k.reached++;
  if (!v.e) {
    if (v.c) { k.konst++; return; }
    k.failed++; c.ex->violation(s, "check", msg, s.model); ST.errpaths++; throw Kill{};
  }
  Expr *t = X.lnot(X.bin(E_EQ, v.e, X.cst(0, v.e->w)));
  if (Exprs::isc(t)) { if (t->v) { k.konst++; return; } k.failed++; c.ex->violation(s, "check", msg, s.model); ST.errpaths++; throw Kill{}; }
  Model m; undecided = false;
  if (may(s, X.lnot(t), m, true)) {
    k.failed++; c.ex->violation(s, "check", msg, m); ST.errpaths++;
    c.ex->assume(s, t);
  } else if (undecided) { k.open++; }
  else { k.proved++; add_pc(s, t); }
}

static void ovf(CallCtx &c, EOp op, bool sg) {
  unsigned w = c.cx->argw[0]; State &s = *c.s; Frame &f = s.fr.back(); Ins &I = f.fn->code[f.pc]; Val *R = s.regs.data() + f.rbase;
  Val r, o;
  if (!A(0).e && !A(1).e) {
    uint64_t x = A(0).c, y = A(1).c;
    __int128 a = sg ? (__int128)sx(x, w) : (__int128)x, b = sg ? (__int128)sx(y, w) : (__int128)y;
    __int128 z = op == E_ADD ? a + b : op == E_SUB ? a - b : a * b;
    uint64_t m = (uint64_t)z & mask(w); __int128 back = sg ? (__int128)sx(m, w) : (__int128)m;
    r = {0, m}; o = {0, back != z};
  } else {
    if (w > 32) {
      Expr *x = Exec::ex(A(0), w), *y = Exec::ex(A(1), w), *z = X.bin(op, x, y), *v;
      r = Exec::val(z);
      if (!sg && op == E_ADD) v = X.bin(E_ULT, z, x);
      else if (!sg && op == E_SUB) v = X.bin(E_ULT, x, y);
      else if (!sg && op == E_MUL && Exprs::isc(y) && y->v) v = X.bin(E_ULT, X.cst(mask(w) / y->v, w), x);
      else { set_incomplete("overflow intrinsic"); throw Kill{}; }
      o = Exec::val(v);
    } else {
      unsigned W = 64; Expr *x = Exec::ex(A(0), w), *y = Exec::ex(A(1), w);
      Expr *z = X.bin(op, sg ? X.sext(x, W) : X.zext(x, W), sg ? X.sext(y, W) : X.zext(y, W)), *t = X.extract(z, 0, w);
      r = Exec::val(t); o = Exec::val(X.lnot(X.bin(E_EQ, sg ? X.sext(t, W) : X.zext(t, W), z)));
    }
  }
  R[I.dst] = r; R[I.dst + 1] = o;
}
static void minmax(CallCtx &c, EOp lt, bool mx) {
  unsigned w = c.cx->argw[0]; Expr *x = Exec::ex(A(0), w), *y = Exec::ex(A(1), w); Expr *l = X.bin(lt, x, y);
  c.ret = Exec::val(mx ? X.ite(l, y, x) : X.ite(l, x, y));
}
static void h_nop(CallCtx &c) {}
static void h_malloc_(CallCtx &c, uint64_t n, uint8_t fl, int fill) {
  if (n > (48u << 20)) {
    c.s->notes.push_back("allocation of " + std::to_string(n) + " bytes refused");
    if (fl & OF_HEAP && !(fl & (OF_NEW | OF_NEWARR))) { c.ret = {0, 0}; return; }
    c.threw = true; c.ex->throwStd(*c.s, "_ZTISt9bad_alloc"); return;
  }
  c.ret = {0, c.s->alloc(n ? n : 1, fl, fill)};
  if (!n) c.s->wobj((c.ret.c - ABASE) >> ASH)->size = 0;
}
static void h_free_(CallCtx &c, uint64_t p, uint8_t need) {
  if (!p) return;
  uint64_t id = (p - ABASE) >> ASH; Obj *o = p >= ABASE ? c.s->get(id) : nullptr;
  if (o == FREED) c.ex->crash(*c.s, "double free");
  if (!o || (p - ABASE) & ((1ull << ASH) - 1) || !(o->flags & OF_HEAP)) c.ex->crash(*c.s, "invalid free");
  if ((o->flags & (OF_NEW | OF_NEWARR)) != need) c.ex->crash(*c.s, "mismatched allocation/deallocation");
  c.s->release(id);
}
static void throwH(CallCtx &c, const char *ti) { c.threw = true; c.ex->throwStd(*c.s, ti); }
static Val fun(CallCtx &c, EOp op, uint64_t v = 0) { unsigned w = c.cx->argw[0]; return Exec::val(X.un(op, Exec::ex(A(0), w), w, v)); }

static void setup_handlers() {
  auto H = [&](const char *n, Handler h) { handlers[n] = h; };
  // ---- harness API
  H("nsym_make", [](CallCtx &c) { make_sym(c, ADDR(0), NUM(1, 64), c.ex->cstr(*c.s, ADDR(2)), false); });
  H("nsym_bytes", [](CallCtx &c) { make_sym(c, ADDR(0), NUM(1, 64), c.ex->cstr(*c.s, ADDR(2)), true); });
  H("nsym_assume", [](CallCtx &c) { Val v = A(0); if (!v.e) { if (!v.c) throw Kill{}; return; } c.ex->assume(*c.s, X.lnot(X.bin(E_EQ, v.e, X.cst(0, v.e->w)))); });
  H("nsym_check", [](CallCtx &c) { do_check(c, A(0), c.ex->cstr(*c.s, ADDR(1))); });
  H("nsym_cover", [](CallCtx &c) { covers[c.ex->cstr(*c.s, ADDR(0))]++; });
  H("nsym_note", [](CallCtx &c) { c.s->notes.push_back(c.ex->cstr(*c.s, ADDR(0))); });
  H("nsym_out", [](CallCtx &c) { c.s->outs.push_back(A(0)); });
  H("nsym_conc", [](CallCtx &c) { c.ret = {0, NUM(0, 32)}; });
  H("nsym_arg", [](CallCtx &c) { uint64_t i = NUM(0, 32); c.ret = {0, i < opt_args.size() ? (uint64_t)opt_args[i] & mask(32) : 0}; });
  H("nsym_tier", [](CallCtx &c) { c.ret = {0, (uint64_t)opt_tier}; });
  H("nsym_symbolic", [](CallCtx &c) { c.ret = {0, 1}; });
  H("nsym_is_sym", [](CallCtx &c) { c.ret = {0, A(0).e != nullptr}; });
  H("nsym_debug", [](CallCtx &c) { fprintf(stderr, "DEBUG %s\n", c.ex->cstr(*c.s, ADDR(0)).c_str()); });
  H("nsym_debugi", [](CallCtx &c) { if (A(1).e) fprintf(stderr, "DEBUG %s <sym>\n", c.ex->cstr(*c.s, ADDR(0)).c_str()); else fprintf(stderr, "DEBUG %s %lld\n", c.ex->cstr(*c.s, ADDR(0)).c_str(), (long long)sx(A(1).c, 32)); });
  // ---- process
  H("__assert_fail", [](CallCtx &c) { c.ex->crash(*c.s, "assertion failed: " + c.ex->cstr(*c.s, ADDR(0))); });
  H("abort", [](CallCtx &c) { c.ex->crash(*c.s, "abort() called"); });
  H("_ZSt9terminatev", [](CallCtx &c) { c.ex->crash(*c.s, "std::terminate() called"); });
  H("__cxa_pure_virtual", [](CallCtx &c) { c.ex->crash(*c.s, "pure virtual call"); });
  H("_ZSt21__glibcxx_assert_failPKciS0_S0_", [](CallCtx &c) { c.ex->crash(*c.s, "libstdc++ assertion"); });
  H("exit", [](CallCtx &c) { c.ex->crash(*c.s, "exit() called"); });
  H("llvm.trap", [](CallCtx &c) { c.ex->crash(*c.s, "trap"); });
  H("llvm.ubsantrap", [](CallCtx &c) { c.ex->crash(*c.s, "trap"); });
  for (auto n : {"__cxa_atexit", "atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "setvbuf", "_ZSt21ios_base_library_initv", "__cxa_free_exception"}) H(n, h_nop);
  for (auto n : {"printf", "puts", "putchar", "vprintf", "vfprintf"}) H(n, h_nop);
  H("__cxa_guard_acquire", [](CallCtx &c) { uint64_t p = ADDR(0); Val v = c.ex->load(*c.s, p, 8); c.ret = {0, v.c == 0}; });
  H("__cxa_guard_release", [](CallCtx &c) { c.ex->store(*c.s, ADDR(0), 8, Val{0, 1}); });
  H("__cxa_guard_abort", h_nop);
  H("__cxa_thread_atexit", h_nop);
  // ---- exceptions
  H("__cxa_allocate_exception", [](CallCtx &c) { c.ret = {0, c.s->alloc(std::max<uint64_t>(8, NUM(0, 64)), OF_HEAP, 0xCD)}; });
  H("__cxa_throw", [](CallCtx &c) { uint64_t o = ADDR(0); c.s->exc[o] = {ADDR(1), ADDR(2), 0}; c.threw = true; c.ex->unwind(*c.s, o); });
  H("__cxa_rethrow", [](CallCtx &c) { if (c.s->caught.empty()) c.ex->crash(*c.s, "rethrow without exception"); uint64_t o = c.s->caught.back(); c.threw = true; c.ex->unwind(*c.s, o); });
  H("__cxa_begin_catch", [](CallCtx &c) { uint64_t o = ADDR(0); c.s->caught.push_back(o); c.ret = {0, o}; });
  H("__cxa_end_catch", [](CallCtx &c) { if (!c.s->caught.empty()) c.s->caught.pop_back(); });
  H("__cxa_get_exception_ptr", [](CallCtx &c) { c.ret = A(0); });
  for (auto n : {"llvm.eh.typeid.for", "llvm.eh.typeid.for.p0"}) H(n, [](CallCtx &c) { c.ret = {0, (uint64_t)c.ex->typeidFor(A(0).c)}; });
  H("_ZSt20__throw_length_errorPKc", [](CallCtx &c) { throwH(c, "_ZTISt12length_error"); });
  H("_ZSt20__throw_out_of_rangePKc", [](CallCtx &c) { throwH(c, "_ZTISt12out_of_range"); });
  H("_ZSt24__throw_out_of_range_fmtPKcz", [](CallCtx &c) { throwH(c, "_ZTISt12out_of_range"); });
  H("_ZSt19__throw_logic_errorPKc", [](CallCtx &c) { throwH(c, "_ZTISt11logic_error"); });
  H("_ZSt17__throw_bad_allocv", [](CallCtx &c) { throwH(c, "_ZTISt9bad_alloc"); });
  H("_ZSt28__throw_bad_array_new_lengthv", [](CallCtx &c) { throwH(c, "_ZTISt20bad_array_new_length"); });
  H("__cxa_throw_bad_array_new_length", [](CallCtx &c) { throwH(c, "_ZTISt20bad_array_new_length"); });
  H("_ZSt25__throw_bad_function_callv", [](CallCtx &c) { throwH(c, "_ZTISt17bad_function_call"); });
  H("_ZSt16__throw_bad_castv", [](CallCtx &c) { throwH(c, "_ZTISt8bad_cast"); });
  H("_ZSt24__throw_invalid_argumentPKc", [](CallCtx &c) { throwH(c, "_ZTISt16invalid_argument"); });
  // ---- heap
  H("_Znwm", [](CallCtx &c) { h_malloc_(c, NUM(0, 64), OF_HEAP | OF_NEW, 0xCD); });
  H("_Znam", [](CallCtx &c) { h_malloc_(c, NUM(0, 64), OF_HEAP | OF_NEWARR, 0xCD); });
  H("_ZnwmRKSt9nothrow_t", [](CallCtx &c) { uint64_t n = NUM(0, 64); if (n > (48u << 20)) { c.ret = {0, 0}; return; } h_malloc_(c, n, OF_HEAP | OF_NEW, 0xCD); });
  H("malloc", [](CallCtx &c) { h_malloc_(c, NUM(0, 64), OF_HEAP, 0xCD); });
  H("calloc", [](CallCtx &c) { h_malloc_(c, NUM(0, 64) * NUM(1, 64), OF_HEAP, 0); });
  H("realloc", [](CallCtx &c) {
    uint64_t p = ADDR(0), n = NUM(1, 64); h_malloc_(c, n, OF_HEAP, 0xCD);
    if (p) { Obj *o = c.s->get((p - ABASE) >> ASH); if (o && o != FREED) c.ex->copy(*c.s, c.ret.c, p, std::min<uint64_t>(o->size, n)); h_free_(c, p, 0); } });
  H("free", [](CallCtx &c) { h_free_(c, ADDR(0), 0); });
  for (auto n : {"_ZdlPv", "_ZdlPvm"}) H(n, [](CallCtx &c) { h_free_(c, ADDR(0), OF_NEW); });
  for (auto n : {"_ZdaPv", "_ZdaPvm"}) H(n, [](CallCtx &c) { h_free_(c, ADDR(0), OF_NEWARR); });
  // ---- memory intrinsics
  auto cpy = [](CallCtx &c) { uint64_t n = NUM(2, 64); if (n) { uint64_t d = ADDR(0), s = ADDR(1); c.ex->copy(*c.s, d, s, n); } c.ret = A(0); };
  for (auto n : {"llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "llvm.memcpy.inline.p0.p0.i64", "llvm.memcpy.p0.p0.i32", "llvm.memmove.p0.p0.i32", "memcpy", "memmove"}) H(n, cpy);
  auto set = [](CallCtx &c) { uint64_t n = NUM(2, 64); if (n) { uint64_t d = ADDR(0); Val v = A(1); if (v.e) v.e = X.extract(v.e, 0, 8); c.ex->fill(*c.s, d, v.e ? Exec::val(v.e) : v, n); } c.ret = A(0); };
  for (auto n : {"llvm.memset.p0.i64", "llvm.memset.p0.i32", "memset"}) H(n, set);
  auto cmp = [](CallCtx &c) {
    uint64_t a = ADDR(0), b = ADDR(1), n = NUM(2, 64); Expr *r = X.cst(0, 32);
    if (n) { uint32_t off; uint64_t id; c.ex->find(*c.s, a, n, false, off, id); c.ex->find(*c.s, b, n, false, off, id); }
    // first concrete difference bounds the scan
    for (uint64_t i = 0; i < n; i++) { Val x = c.ex->load(*c.s, a + i, 8), y = c.ex->load(*c.s, b + i, 8); if (!x.e && !y.e && x.c != y.c) { n = i + 1; break; } }
    for (int64_t i = (int64_t)n - 1; i >= 0; i--) {
      Expr *x = Exec::ex(c.ex->load(*c.s, a + i, 8), 8), *y = Exec::ex(c.ex->load(*c.s, b + i, 8), 8);
      if (x == y) continue;
      r = X.ite(X.bin(E_EQ, x, y), r, X.ite(X.bin(E_ULT, x, y), X.cst(~0ull, 32), X.cst(1, 32)));
    }
    c.ret = Exec::val(r); };
  H("memcmp", cmp); H("bcmp", cmp);
  H("strlen", [](CallCtx &c) {
    uint64_t a = ADDR(0);
    for (uint64_t i = 0;; i++) {
      Val v = c.ex->load(*c.s, a + i, 8);
      if (v.e) { Expr *z = X.bin(E_EQ, v.e, X.cst(0, 8)); uint64_t k = c.ex->concretize(*c.s, Exec::val(z), 1); if (k) { c.ret = {0, i}; return; } continue; }
      if (!v.c) { c.ret = {0, i}; return; }
    } });
  // ---- arithmetic intrinsics
  for (auto w : {"i8", "i16", "i32", "i64"}) {
    std::string s = w;
    handlers["llvm.uadd.with.overflow." + s] = [](CallCtx &c) { ovf(c, E_ADD, false); };
    handlers["llvm.usub.with.overflow." + s] = [](CallCtx &c) { ovf(c, E_SUB, false); };
    handlers["llvm.umul.with.overflow." + s] = [](CallCtx &c) { ovf(c, E_MUL, false); };
    handlers["llvm.sadd.with.overflow." + s] = [](CallCtx &c) { ovf(c, E_ADD, true); };
    handlers["llvm.ssub.with.overflow." + s] = [](CallCtx &c) { ovf(c, E_SUB, true); };
    handlers["llvm.smul.with.overflow." + s] = [](CallCtx &c) { ovf(c, E_MUL, true); };
    handlers["llvm.umax." + s] = [](CallCtx &c) { minmax(c, E_ULT, true); };
    handlers["llvm.umin." + s] = [](CallCtx &c) { minmax(c, E_ULT, false); };
    handlers["llvm.smax." + s] = [](CallCtx &c) { minmax(c, E_SLT, true); };
    handlers["llvm.smin." + s] = [](CallCtx &c) { minmax(c, E_SLT, false); };
    handlers["llvm.abs." + s] = [](CallCtx &c) { unsigned w = c.cx->argw[0]; Expr *x = Exec::ex(A(0), w); c.ret = Exec::val(X.ite(X.bin(E_SLT, x, X.cst(0, w)), X.bin(E_SUB, X.cst(0, w), x), x)); };
    handlers["llvm.usub.sat." + s] = [](CallCtx &c) { unsigned w = c.cx->argw[0]; Expr *x = Exec::ex(A(0), w), *y = Exec::ex(A(1), w); c.ret = Exec::val(X.ite(X.bin(E_ULT, x, y), X.cst(0, w), X.bin(E_SUB, x, y))); };
    handlers["llvm.uadd.sat." + s] = [](CallCtx &c) { unsigned w = c.cx->argw[0]; Expr *x = Exec::ex(A(0), w), *y = Exec::ex(A(1), w), *z = X.bin(E_ADD, x, y); c.ret = Exec::val(X.ite(X.bin(E_ULT, z, x), X.cst(~0ull, w), z)); };
    handlers["llvm.ctlz." + s] = [](CallCtx &c) { unsigned w = c.cx->argw[0]; Expr *x = Exec::ex(A(0), w), *r = X.cst(w, w); for (unsigned i = 0; i < w; i++) r = X.ite(X.bin(E_EQ, X.extract(x, i, 1), X.cst(1, 1)), X.cst(w - 1 - i, w), r); c.ret = Exec::val(r); };
    handlers["llvm.cttz." + s] = [](CallCtx &c) { unsigned w = c.cx->argw[0]; Expr *x = Exec::ex(A(0), w), *r = X.cst(w, w); for (int i = w - 1; i >= 0; i--) r = X.ite(X.bin(E_EQ, X.extract(x, i, 1), X.cst(1, 1)), X.cst(i, w), r); c.ret = Exec::val(r); };
    handlers["llvm.ctpop." + s] = [](CallCtx &c) { unsigned w = c.cx->argw[0]; Expr *x = Exec::ex(A(0), w), *r = X.cst(0, w); for (unsigned i = 0; i < w; i++) r = X.bin(E_ADD, r, X.zext(X.extract(x, i, 1), w)); c.ret = Exec::val(r); };
    handlers["llvm.bswap." + s] = [](CallCtx &c) { unsigned w = c.cx->argw[0]; Expr *x = Exec::ex(A(0), w), *r = nullptr; for (unsigned i = 0; i < w; i += 8) { Expr *b = X.extract(x, i, 8); r = r ? X.concat(r, b) : b; } c.ret = Exec::val(r); };
    auto fsh = [](CallCtx &c, bool left) { unsigned w = c.cx->argw[0]; uint64_t k = NUM(2, w) % w; Expr *x = Exec::ex(A(0), w), *y = Exec::ex(A(1), w);
      if (!k) { c.ret = left ? A(0) : A(1); return; } if (!left) k = w - k; c.ret = Exec::val(X.concat(X.extract(x, 0, w - k), X.extract(y, w - k, k))); };
    static auto fshs = fsh;
    handlers["llvm.fshl." + s] = [](CallCtx &c) { fshs(c, true); };
    handlers["llvm.fshr." + s] = [](CallCtx &c) { fshs(c, false); };
    handlers["llvm.is.constant." + s] = [](CallCtx &c) { c.ret = {0, 0}; };
    handlers["llvm.expect." + s] = [](CallCtx &c) { c.ret = A(0); };
    handlers["llvm.objectsize." + s + ".p0"] = [](CallCtx &c) { c.ret = {0, ~0ull}; };
  }
  handlers["llvm.is.constant.i1"] = [](CallCtx &c) { c.ret = {0, 0}; };
  handlers["llvm.is.constant.p0"] = [](CallCtx &c) { c.ret = {0, 0}; };
  handlers["llvm.expect.i1"] = [](CallCtx &c) { c.ret = A(0); };
  handlers["llvm.umax.i1"] = [](CallCtx &c) { c.ret = Exec::val(X.lor(Exec::ex(A(0), 1), Exec::ex(A(1), 1))); };
  handlers["llvm.umin.i1"] = [](CallCtx &c) { c.ret = Exec::val(X.land(Exec::ex(A(0), 1), Exec::ex(A(1), 1))); };
  H("llvm.threadlocal.address.p0", [](CallCtx &c) { c.ret = A(0); });
  H("llvm.launder.invariant.group.p0", [](CallCtx &c) { c.ret = A(0); });
  H("llvm.strip.invariant.group.p0", [](CallCtx &c) { c.ret = A(0); });
  H("llvm.stacksave.p0", h_nop); H("llvm.stacksave", h_nop);
  // ---- float
  for (std::string t : {"f32", "f64"}) {
    handlers["llvm.sqrt." + t] = [](CallCtx &c) { c.ret = fun(c, E_FSQRT); };
    handlers["llvm.floor." + t] = [](CallCtx &c) { c.ret = fun(c, E_FRND, R_FLOOR); };
    handlers["llvm.ceil." + t] = [](CallCtx &c) { c.ret = fun(c, E_FRND, R_CEIL); };
    handlers["llvm.trunc." + t] = [](CallCtx &c) { c.ret = fun(c, E_FRND, R_TRUNC); };
    handlers["llvm.round." + t] = [](CallCtx &c) { c.ret = fun(c, E_FRND, R_ROUND); };
    handlers["llvm.rint." + t] = [](CallCtx &c) { c.ret = fun(c, E_FRND, R_EVEN); };
    handlers["llvm.nearbyint." + t] = [](CallCtx &c) { c.ret = fun(c, E_FRND, R_EVEN); };
    handlers["llvm.roundeven." + t] = [](CallCtx &c) { c.ret = fun(c, E_FRND, R_EVEN); };
    handlers["llvm.sin." + t] = [](CallCtx &c) { c.ret = fun(c, E_UF, 0); };
    handlers["llvm.cos." + t] = [](CallCtx &c) { c.ret = fun(c, E_UF, 1); };
    handlers["llvm.fabs." + t] = [](CallCtx &c) { unsigned w = c.cx->argw[0]; c.ret = Exec::val(X.bin(E_AND, Exec::ex(A(0), w), X.cst(mask(w - 1), w))); };
    handlers["llvm.copysign." + t] = [](CallCtx &c) { unsigned w = c.cx->argw[0]; c.ret = Exec::val(X.concat(X.extract(Exec::ex(A(1), w), w - 1, 1), X.extract(Exec::ex(A(0), w), 0, w - 1))); };
    handlers["llvm.fmuladd." + t] = [](CallCtx &c) { unsigned w = c.cx->argw[0]; c.ret = Exec::val(X.bin(E_FADD, X.bin(E_FMUL, Exec::ex(A(0), w), Exec::ex(A(1), w)), Exec::ex(A(2), w))); };
    auto mm = [](CallCtx &c, bool mx) { unsigned w = c.cx->argw[0]; Expr *x = Exec::ex(A(0), w), *y = Exec::ex(A(1), w);
      Expr *l = X.bin(E_FLT, x, y); Expr *r = mx ? X.ite(l, y, x) : X.ite(l, x, y);
      r = X.ite(X.bin(E_FUNO, x, x), y, X.ite(X.bin(E_FUNO, y, y), x, r)); c.ret = Exec::val(r); };
    static auto mms = mm;
    handlers["llvm.maxnum." + t] = [](CallCtx &c) { mms(c, true); };
    handlers["llvm.minnum." + t] = [](CallCtx &c) { mms(c, false); };
    handlers["llvm.is.fpclass." + t] = [](CallCtx &c) { // supports the nan classes only
      unsigned w = c.cx->argw[0]; uint64_t m = NUM(1, 32); Expr *x = Exec::ex(A(0), w), *n = X.bin(E_FUNO, x, x);
      if (m == 3) c.ret = Exec::val(n); else if (m == 1020) c.ret = Exec::val(X.lnot(n)); else { set_incomplete("is.fpclass"); throw Kill{}; } };
  }
  for (auto p : {"sqrtf", "sqrt"}) H(p, [](CallCtx &c) { c.ret = fun(c, E_FSQRT); });
  for (auto p : {"floorf", "floor"}) H(p, [](CallCtx &c) { c.ret = fun(c, E_FRND, R_FLOOR); });
  for (auto p : {"ceilf", "ceil"}) H(p, [](CallCtx &c) { c.ret = fun(c, E_FRND, R_CEIL); });
  for (auto p : {"truncf", "trunc"}) H(p, [](CallCtx &c) { c.ret = fun(c, E_FRND, R_TRUNC); });
  for (auto p : {"roundf", "round"}) H(p, [](CallCtx &c) { c.ret = fun(c, E_FRND, R_ROUND); });
  for (auto p : {"rintf", "rint", "nearbyintf", "nearbyint"}) H(p, [](CallCtx &c) { c.ret = fun(c, E_FRND, R_EVEN); });
  for (auto p : {"fabsf", "fabs"}) handlers[p] = handlers["llvm.fabs.f32"];
  for (auto p : {"sinf", "sin"}) H(p, [](CallCtx &c) { c.ret = fun(c, E_UF, 0); });
  for (auto p : {"cosf", "cos"}) H(p, [](CallCtx &c) { c.ret = fun(c, E_UF, 1); });
  for (auto p : {"tanf", "tan"}) H(p, [](CallCtx &c) { c.ret = fun(c, E_UF, 2); });
  for (auto p : {"fmaxf", "fmax"}) handlers[p] = handlers["llvm.maxnum.f32"];
  for (auto p : {"fminf", "fmin"}) handlers[p] = handlers["llvm.minnum.f32"];
  for (auto p : {"fmodf", "fmod"}) H(p, [](CallCtx &c) { unsigned w = c.cx->argw[0]; if (A(0).e || A(1).e) { set_incomplete("symbolic fmod"); throw Kill{}; } c.ret = Exec::val(X.bin(E_FREM, X.cst(A(0).c, w), X.cst(A(1).c, w))); });
  // ---- varargs (x86-64 layout, everything in the overflow area)
  auto vs = [](CallCtx &c) {
    uint64_t p = ADDR(0); Exec &E = *c.ex; State &s = *c.s; Frame &f = s.fr.back();
    E.store(s, p, 32, Val{0, 48}); E.store(s, p + 4, 32, Val{0, 176}); E.store(s, p + 8, 64, Val{0, f.va}); E.store(s, p + 16, 64, Val{0, 0}); };
  H("llvm.va_start", vs); H("llvm.va_start.p0", vs);
  H("llvm.va_end", h_nop); H("llvm.va_end.p0", h_nop);
  auto vc = [](CallCtx &c) { c.ex->copy(*c.s, ADDR(0), ADDR(1), 24); };
  H("llvm.va_copy", vc); H("llvm.va_copy.p0", vc);
}
