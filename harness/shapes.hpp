// Every function body of up to N statements: trace, return, if, if/else, while
// and for, in all orders and nestings, with empty blocks.
#pragma once
#include "ref.hpp"
namespace ref {
struct Shapes {
  int slots, ncond = 0, nloop = 0, uid = 0, first = 0;
  bool konst;          // conditions may also be the constants 0 and 1
  int pre[2] = {-1, -1};
  Shapes(int n, bool k = false) : slots(n), konst(k) {}
  Node *cond() {
    static const char *C[] = {"a", "b", "c"};
    int k = konst ? nsym_choose("q", 3) : 0;
    return k == 0 ? var(C[ncond++ % 3]) : lit(k - 1);
  }
  Node *stmt(int k) {
    switch (k) {
    case 0: return tr(lit(++uid));
    case 1: return ret(slots & 1 ? var("a") : lit(100 + slots));
    case 2: case 3: { Node *c = cond(), *t = blk(); return if_(c, t, k == 3 ? blk() : nullptr); }
    case 4: { std::string v = "w" + std::to_string(nloop++); Node *b = blk(); return block({decl(v, lit(0)), while_(bin("<", var(v), lit(2)), block({comp(v, "+", lit(1)), b}))}); }
    default: { std::string v = "f" + std::to_string(nloop++); Node *b = blk(); return block({decl(v), for_(v, lit(0), lit(2), b)}); }
    }
  }
  Node *blk() {
    std::vector<Node *> s;
    while (slots > 0) {
      int k = first < 2 && pre[first] >= 0 ? pre[first] : nsym_choose("s", 7);   // 0: the block ends here
      first++;
      if (k == 0) break;
      slots--; s.push_back(stmt(k - 1));
    }
    return block(s);
  }
  // the first choices can be fixed to split the work
  Node *body(int f, int g) { pre[0] = f + 1; pre[1] = g; return blk(); }
};
} // namespace ref
