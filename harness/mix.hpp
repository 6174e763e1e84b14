// An expression in every position of the grammar: main(a, b) around it shows its value.
#pragma once
#include "forms.hpp"
namespace ref {
const int NPOS = 22;
inline void mix(Prog &p, int pos, Node *e) {
  form_funcs(p); p.global("G", lit(1));
  p.fn("two", {"x", "y"}, block({tr(var("x")), ret(var("y"))}));
  p.fn("zero", {}, block({tr(lit(70)), ret(lit(0))}));
  std::vector<Node *> s{decl("x", lit(3)), decl("r", arr({lit(4), lit(5), lit(6)})), decl("i", lit(0))};
  auto add = [&](std::vector<Node *> m) { for (Node *n : m) s.push_back(n); };
  switch (pos) {
  case 0: add({ret(e)}); break;
  case 1: add({decl("y", e), tr(var("y")), ret(var("y"))}); break;
  case 2: add({set("x", e), tr(var("x"))}); break;
  case 3: add({set("a", e), tr(var("a")), tr(var("b"))}); break;
  case 4: add({set("G", e), ret(var("G"))}); break;
  case 5: add({comp("x", "+", e), ret(var("x"))}); break;
  case 6: add({seta("r", lit(1), e), tr(idx(var("r"), lit(0))), tr(idx(var("r"), lit(1))), ret(idx(var("r"), lit(2)))}); break;
  case 7: add({seta("r", e, lit(50)), tr(idx(var("r"), lit(0))), tr(idx(var("r"), lit(1))), ret(idx(var("r"), lit(2)))}); break;
  case 8: add({do_(call("two", {e, var("b")})), ret(lit(2))}); break;
  case 9: add({ret(call("two", {var("b"), e}))}); break;
  case 10: add({if_(e, block({tr(lit(1))}), block({tr(lit(2))})), tr(lit(3))}); break;
  case 11: add({while_(e, block({comp("i", "+", lit(1)), tr(lit(1)), if_(bin("==", var("i"), lit(2)), block({ret(lit(9))}))})), tr(lit(3))}); break;
  case 12: add({for_("i", e, lit(1), block({tr(var("i")), set("i", lit(5))})), ret(var("i"))}); break;
  case 13: add({for_("i", lit(0), e, block({tr(var("i")), if_(bin("==", var("i"), lit(1)), block({ret(lit(9))}))})), ret(var("i"))}); break;
  case 14: add({decl("q", arr({lit(1), e, lit(2)})), tr(idx(var("q"), lit(0))), tr(idx(var("q"), lit(1))), ret(idx(var("q"), lit(2)))}); break;
  case 15: add({ret(idx(var("r"), e))}); break;
  case 16: add({tr(e), tr(lit(8))}); break;
  case 17: add({decl("f", var("two")), ret(calle(var("f"), {e, e}))}); break;
  case 18: add({if_(var("a"), block({if_(lit(1), block({decl("y", e), tr(var("y")), set("x", var("y"))}))}), block({set("x", e)})), ret(var("x"))}); break;
  case 19: add({for_("i", lit(0), lit(2), block({decl("y", e), tr(var("y")), set("x", var("y"))})), ret(var("x"))}); break;
  case 20: add({decl("y", call("two", {e, call("two", {lit(5), e})})), ret(var("y"))}); break;
  case 21: add({if_(bin("and", lit(1), e), block({ret(lit(1))})), ret(bin("or", call("zero"), e))}); break;
  }
  p.fn("main", {"a", "b"}, block(s));
}
} // namespace ref
