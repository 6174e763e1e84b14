// Deep comparison of real values with the reference interpreter's, including
// which arrays are one and the same, and a set of programs that share, nest
// and tie arrays, strings and pending operands.
#pragma once
#include "ref.hpp"
namespace ref {
struct Deep {
  Interp &I; const program_t &p;
  std::map<int, const value_t *> fwd; std::map<const value_t *, int> bwd;
  Deep(Interp &i, const program_t &q) : I(i), p(q) {}
  int eq(const Val &w, const value_t *v) {
    if (w.t != v->type()) return 0;
    if (w.t != val_type_array) return same(conv(p, v), w);
    auto f = fwd.find(w.i); auto b = bwd.find(v);
    if (f != fwd.end() || b != bwd.end()) return f != fwd.end() && b != bwd.end() && f->second == v && b->second == w.i;
    fwd[w.i] = v; bwd[v] = w.i;
    auto &h = I.heap[w.i];
    if ((int)h.size() != v->array_size()) return 0;
    int ok = 1;
    for (size_t k = 0; k < h.size(); k++) ok &= eq(h[k], v->array()[k]);
    return ok;
  }
};
inline Node *V(const char *n) { return var(n); }
const int NSHARE = 18;
// main(a, i): everything observable is in the returned array and the trace
inline Prog share_prog(int k) {
  Prog p; std::vector<Node *> s;
  auto A = [](std::vector<Node *> e) { return arr(e); };
  auto L = [](int v) { return lit(v); };
  p.global("g"); p.global("h", arr({lit(1), lit(2)}));
  switch (k) {
  case 0: // two names, one array
    s = {decl("x", A({V("a"), L(2)})), decl("y", V("x")), decl("z", A({V("x"), V("y"), V("x")})), seta("y", V("i"), str("s")), ret(A({V("x"), V("y"), V("z"), idx(V("z"), L(2))}))}; break;
  case 1: // contains itself
    s = {decl("x", A({V("a"), L(2), L(3)})), seta("x", V("i"), V("x")), decl("y", A({V("x")})), seta("y", L(0), idx(V("x"), V("i"))), ret(A({V("x"), V("y"), V("h")}))}; break;
  case 2: // two arrays containing one another
    s = {decl("x", A({L(1), V("a")})), decl("y", A({L(3), L(4)})), seta("x", L(0), V("y")), seta("y", V("i"), V("x")), set("g", V("y")), ret(A({V("x"), V("g"), idx(V("x"), L(0))}))}; break;
  case 3: // pending operands of every type across calls
    p.fn("mk", {"q"}, block({decl("l", A({V("q"), str("loc")})), ret(V("l"))}));
    s = {decl("x", str("left")), ret(A({bin("+", bin("+", V("x"), V("a")), str("!")), call("mk", {A({V("a"), call("mk", {V("x")})})}), flt("2.5"), V("mk"), V("len"), none(), bin("-", V("a"), call("len", {call("mk", {V("i")})}))}))}; break;
  case 4: // strings through arrays, locals, globals
    s = {set("g", A({str("one"), str(""), str("three")})), decl("x", bin("+", idx(V("g"), L(0)), idx(V("g"), L(2)))), seta("g", V("i"), V("x")), comp("x", "+", V("x")), ret(A({V("g"), V("x"), idx(V("g"), V("i"))}))}; break;
  case 5: // recursion with arrays in every frame
    p.fn("f", {"n", "acc"}, block({decl("l", A({V("n"), V("acc")})), if_(bin("<=", V("n"), L(0)), block({ret(V("l"))})), decl("r", call("f", {bin("-", V("n"), L(1)), V("l")})), ret(A({V("r"), V("l"), V("acc")}))}));
    s = {ret(call("f", {L(2), A({V("a")})}))}; break;
  case 6: // a list built in a loop
    s = {decl("x"), decl("n", L(0)), while_(bin("<", V("n"), L(3)), block({set("x", A({bin("+", V("a"), V("n")), V("x")})), comp("n", "+", L(1))})), ret(V("x"))}; break;
  case 7: // garbage between live values
    s = {decl("x", A({V("a")})), set("g", A({str("dead")})), set("g", A({str("live"), V("x")})), do_(call("t", {str("gone")})), decl("y", A({L(7), V("g")})), set("x", none()), ret(V("y"))}; break;
  case 8: // shared literals and values stored twice
    s = {decl("v", bin("+", V("a"), L(1))), decl("x", A({V("v"), V("v"), V("h"), V("h")})), comp("v", "+", L(5)), seta("h", V("i"), V("v")), seta("x", L(0), V("x")), ret(A({V("v"), V("x"), V("h")}))}; break;
  case 9: // big array, mostly none
    s = {decl("x", call("new_array", {L(12)})), seta("x", L(11), A({V("a")})), seta("x", V("i"), idx(V("x"), L(11))), set("g", V("x")), ret(A({V("x"), V("g")}))}; break;
  case 10: // arguments rebound while the caller holds them
    p.fn("f", {"p", "q"}, block({seta("p", L(0), V("q")), set("p", A({V("p")})), set("q", str("rebound")), ret(A({V("p"), V("q")}))}));
    s = {decl("x", A({V("a"), L(0)})), decl("y", A({L(5)})), decl("r", call("f", {V("x"), V("y")})), ret(A({V("x"), V("y"), V("r")}))}; break;
  case 11: // functions and system functions as values, called through arrays
    p.fn("f", {"p"}, block({ret(A({V("p"), V("f")}))}));
    s = {decl("x", A({V("f"), V("len")})), decl("r", calle(idx(V("x"), L(0)), {A({V("a"), V("x")})})), ret(A({V("r"), calle(idx(V("x"), L(1)), {V("r")}), V("x")}))}; break;
  case 12: // nested literals with calls in between
    p.fn("id", {"p"}, block({decl("w", A({str("w")})), ret(V("p"))}));
    s = {ret(A({A({V("a"), call("id", {A({L(1)})})}), call("id", {A({str("s"), call("id", {flt("0.5")})})}), A({call("id", {V("h")}), V("h")})}))}; break;
  case 13: // diamond
    s = {decl("b", A({V("a")})), decl("l", A({V("b"), L(1)})), decl("r", A({V("b"), L(2)})), decl("top", A({V("l"), V("r")})), seta("b", L(0), V("top")), set("g", V("r")), ret(A({V("top"), V("g")}))}; break;
  case 14: // for loop filling an array of arrays
    s = {decl("x", call("new_array", {L(3)})), decl("n"), for_("n", L(0), L(3), block({decl("e", A({V("n"), V("a")})), seta("x", V("n"), V("e")), seta("e", L(1), bin("+", str("e"), V("n")))})), seta("x", V("i"), idx(V("x"), L(2))), ret(V("x"))}; break;
  case 15: // conditions on heap values
    s = {decl("x", A({str(""), str("y")})), if_(idx(V("x"), V("i")), block({seta("x", V("i"), A({V("x")}))}), block({decl("q", A({V("a"), V("x")})), set("x", V("q"))})), while_(bin("==", V("g"), none()), block({set("g", A({V("x")}))})), ret(A({V("x"), V("g")}))}; break;
  case 16: // deep chain of calls in one expression
    p.fn("j", {"u", "v"}, block({ret(A({V("v"), V("u")}))}));
    s = {ret(call("j", {call("j", {V("a"), A({str("1")})}), call("j", {A({str("2")}), call("j", {V("h"), V("h")})})}))}; break;
  case 17: // index and array both on the heap, stores with computed parts
    s = {decl("x", A({A({L(0), L(1)}), A({L(1), L(0)})})), decl("y", idx(V("x"), idx(idx(V("x"), L(1)), V("i")))), seta("y", idx(idx(V("x"), L(0)), V("i")), bin("+", str("k"), V("a"))), ret(A({V("x"), V("y")}))}; break;
  }
  p.fn("main", {"a", "i"}, block(s));
  return p;
}
} // namespace ref
