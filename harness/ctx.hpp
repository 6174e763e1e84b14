// expression and statement positions: every place of the grammar an expression can stand in, to compose at will
#pragma once
#include <string>
namespace ctx {
// @ is the hole; v is a variable, fp a variable holding the function id1 (one parameter), arr an array, any() takes any number of arguments
static const char *exprs[] = {"@", "(@)", "id1(@)", "any(@)", "any(v, @)", "any(@, v)", "id2(v, @)", "id2(@, v)", "arr[@]", "[@]", "[v, @]", "[@, v]", "- @", "not @", "@ + v", "v + @", "@ and v", "v == @", "fp(@)", "ary2[0](@)", "(@)(v)", "(@)[v]", "v - (v - @)", "[[@], v][0]", "id1(id1(@))"};
const int NEXPR = 25;
static const char *stmts[] = {" return @", " v = @", " var w9 = @", " if (@)\n  v = 1\n end", " while (@)\n  return 1\n end", " for (i9 = @ to 3)\n end", " for (i9 = 0 to @)\n end", " arr[@] = v", " arr[0] = @", " v += @", " any(@)", " id1(@)", " if (v)\n  v = @\n end", " if (v)\n else\n  v = @\n end", " while (v)\n  v = @\n  return v\n end", " for (i9 = 0 to 2)\n  v = @\n end", " obj.m = @", " if (v)\n  if (v)\n   while (v)\n    return @\n   end\n  end\n end"};
static const int stmt_line[] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 1, 1, 0, 3};
const int NSTMT = 18;
inline std::string fill(const char *t, const std::string &e) { std::string o; for (; *t; t++) { if (*t == '@') o += e; else o += *t; } return o; }
// one position inside another
inline std::string nest(int o, int i, const std::string &e) { std::string in = fill(exprs[i], e); return fill(exprs[o], in.compare(0, 4, "not ") == 0 ? "(" + in + ")" : in); }
// a program around one statement; the statement is on line `line`
inline std::string around(const std::string &st, int &line, bool before, const std::string &more) {
  std::string defs = "function id1(a)\n return a\nend\nfunction id2(a, b)\n return b\nend\n", body = "function main(v)\n var i9 = 0\n var fp = id1\n var arr = [1, 2]\n var ary2 = [id1]\n var obj\n" + st + "\n return [v, arr, obj, i9]\nend\n";
  auto lines = [](const std::string &s) { int n = 0; for (char c : s) n += c == '\n'; return n; };
  std::string pre = before ? defs + more : std::string(); line = lines(pre) + 7; return pre + body + (before ? std::string() : defs + more);
}
}
