// The same value in every syntactic form an expression can have.
#pragma once
#include "ref.hpp"
namespace ref {
const int NFORM = 15;
// needs: function id(x), global G, local array R (set to [e, 0]) where used; e is a variable or literal
inline Node *form(int k, Node *e) {
  switch (k) {
  case 0: return e;
  case 1: return neg(bin("-", lit(0), e));
  case 2: return call("id", {e});
  case 3: return idx(arr({lit(9), e}), lit(1));
  case 4: return bin("+", e, lit(0));
  case 5: return calle(idx(arr({var("id")}), lit(0)), {e});
  case 6: return bin("*", lit(1), call("id", {e}));
  case 7: return idx(arr({arr({e})}), bin("-", lit(1), lit(1))) ;   // an array: see formv
  case 8: return neg(neg(e));
  case 9: return call("t", {e});
  case 10: return idx(call("pair", {e}), lit(1));
  case 11: return bin("-", call("id", {e}), lit(0));
  case 12: return call("id", {call("id", {e})});
  case 13: return bin("-", e, bin("-", e, e));
  case 14: return idx(idx(arr({arr({e})}), lit(0)), lit(0));
  }
  return e;
}
// only forms with the value of e
inline Node *formv(int k, Node *e) { return form(k == 7 ? 14 : k, e); }
inline void form_funcs(Prog &p) {
  p.fn("id", {"x"}, block({ret(var("x"))}));
  p.fn("pair", {"x"}, block({ret(arr({lit(0), var("x")}))}));
}
} // namespace ref
