// Runtime for the symbolic build: the parts of libstdc++/libc that live in
// shared libraries and that the code under test calls.
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <list>
#include <map>
#include <unordered_map>
#include <string>
template class std::__cxx11::basic_string<char>;
#include "../harness/nsym.h"

// ------------------------------------------------------------ red-black tree
// (insertion balances as in libstdc++, erasure does not; the order of iteration is the same)
namespace std {
typedef _Rb_tree_node_base *NP;
static NP mn(NP x) { while (x->_M_left) x = x->_M_left; return x; }
static NP mx(NP x) { while (x->_M_right) x = x->_M_right; return x; }
// the header is the node whose parent's parent is itself and is red
static bool is_header(NP x) { return x->_M_color == _S_red; }
NP _Rb_tree_increment(NP x) throw() {
  if (x->_M_right) return mn(x->_M_right);
  NP y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<NP>(x)); }
NP _Rb_tree_decrement(NP x) throw() {
  if (is_header(x) && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) return mx(x->_M_left);
  NP y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<NP>(x)); }
static void rotl(NP const x, NP &root) {
  NP y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
  y->_M_left = x; x->_M_parent = y;
}
static void rotr(NP const x, NP &root) {
  NP y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
  y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, NP x, NP p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x;
  } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  NP &root = h._M_parent;
  while (x != root && x->_M_parent->_M_color == _S_red) {
    NP const g = x->_M_parent->_M_parent;
    if (x->_M_parent == g->_M_left) {
      NP const y = g->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotr(g, root); }
    } else {
      NP const y = g->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotl(g, root); }
    }
  }
  root->_M_color = _S_black;
}
// erasing keeps the order but does not rebalance
NP _Rb_tree_rebalance_for_erase(NP const z, _Rb_tree_node_base &h) throw() {
  NP y = z, x;
  auto repl = [&](NP o, NP n) {
    if (h._M_parent == o) h._M_parent = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n;
    if (n) n->_M_parent = o->_M_parent;
  };
  bool lm = h._M_left == z, rm = h._M_right == z;
  NP next = lm ? (z->_M_right ? mn(z->_M_right) : z->_M_parent) : nullptr;
  NP prev = rm ? (z->_M_left ? mx(z->_M_left) : z->_M_parent) : nullptr;
  if (!z->_M_left) repl(z, z->_M_right);
  else if (!z->_M_right) repl(z, z->_M_left);
  else {
    y = mn(z->_M_right); x = y->_M_right;
    if (y->_M_parent != z) { y->_M_parent->_M_left = x; if (x) x->_M_parent = y->_M_parent; y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  if (h._M_parent) h._M_parent->_M_color = _S_black;
  if (lm) h._M_left = next;
  if (rm) h._M_right = prev;
  return z;
}
// ------------------------------------------------------------ list
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  auto fix = [](_List_node_base &n, _List_node_base &o) { if (n._M_next == &o) n._M_next = n._M_prev = &n; else { n._M_next->_M_prev = &n; n._M_prev->_M_next = &n; } };
  _List_node_base *a = x._M_next, *b = x._M_prev; x._M_next = y._M_next; x._M_prev = y._M_prev; y._M_next = a; y._M_prev = b; fix(x, y); fix(y, x);
}
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
  if (this != l) {
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
    _List_node_base *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
  }
}
void _List_node_base::_M_reverse() noexcept {
  _List_node_base *t = this; do { _List_node_base *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this);
}
// ------------------------------------------------------------ hash tables
static const size_t primes[] = {13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229, 172933};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  for (size_t p : primes) if (p >= n) { _M_next_resize = (size_t)(p * (double)_M_max_load_factor); return p; }
  return n | 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins > bkt) { size_t w = elt + ins + 1; if (w < 2 * bkt) w = 2 * bkt; return {true, _M_next_bkt(w)}; }
  return {false, 0};
}
} // namespace __detail
size_t _Hash_bytes(const void *p, size_t n, size_t seed) {
  size_t h = 5381; for (size_t i = 0; i < n; i++) h = h * 33 + ((const unsigned char *)p)[i]; return h;
}
} // namespace std

extern "C" {
// ------------------------------------------------------------ C strings
int strcmp(const char *a, const char *b) { for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char *a, const char *b, size_t n) { for (; n; a++, b++, n--) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
void *nsym_memchr(const void *s, int c, size_t n) __asm__("memchr");
char *nsym_strchr(const char *s, int c) __asm__("strchr");
char *nsym_strrchr(const char *s, int c) __asm__("strrchr");
void *nsym_memchr(const void *s, int c, size_t n) { const unsigned char *p = (const unsigned char *)s; for (; n; p++, n--) if (*p == (unsigned char)c) return (void *)p; return nullptr; }
char *nsym_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
char *nsym_strrchr(const char *s, int c) { const char *r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isblank(int c) { return c == ' ' || c == 9; }
char *strncat(char *d, const char *s, size_t n) { char *r = d; d += strlen(d); for (; n && *s; n--) *d++ = *s++; *d = 0; return r; }
size_t strspn(const char *s, const char *a) { size_t n = 0; for (; s[n]; n++) { const char *p = a; while (*p && *p != s[n]) p++; if (!*p) break; } return n; }
char *nsym_strpbrk(const char *s, const char *a) __asm__("strpbrk");
char *nsym_strpbrk(const char *s, const char *a) { for (; *s; s++) for (const char *p = a; *p; p++) if (*p == *s) return (char *)s; return nullptr; }
char *strtok_r(char *s, const char *d, char **q) { if (!s) s = *q; if (!s) return nullptr; auto in = [&](char c) { for (const char *p = d; *p; p++) if (*p == c) return true; return false; }; while (*s && in(*s)) s++; if (!*s) { *q = nullptr; return nullptr; } char *e = s; while (*e && !in(*e)) e++; if (*e) { *e = 0; *q = e + 1; } else *q = nullptr; return s; }
char *strtok(char *s, const char *d) { static char *at; return strtok_r(s, d, &at); }
void qsort(void *b, size_t n, size_t w, int (*c)(const void *, const void *)) { char *v = (char *)b; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && c(v + (j - 1) * w, v + j * w) > 0; j--) for (size_t k = 0; k < w; k++) { char t = v[(j - 1) * w + k]; v[(j - 1) * w + k] = v[j * w + k]; v[j * w + k] = t; } }
// single inheritance only, which is all ccml has
extern char nsym_si_vt[] __asm__("_ZTVN10__cxxabiv120__si_class_type_infoE");
void *__dynamic_cast(const void *p, const void *, const void *dst, ptrdiff_t) { void **vt = *(void ***)p; ptrdiff_t off = ((ptrdiff_t *)vt)[-2]; void **ti = (void **)vt[-1]; for (;;) { if (ti == dst) return (char *)p + off; if (ti[0] != nsym_si_vt + 16) return nullptr; ti = (void **)ti[2]; } }
size_t strcspn(const char *s, const char *a) { size_t n = 0; for (; s[n]; n++) { const char *p = a; while (*p && *p != s[n]) p++; if (*p) break; } return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; a++, b++, n--) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
int strcasecmp(const char *a, const char *b) { return strncasecmp(a, b, (size_t)-1); }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *d = (char *)malloc(n); memcpy(d, s, n); return d; }
char *nsym_strstr(const char *s, const char *t) __asm__("strstr");
char *nsym_strstr(const char *s, const char *t) { for (;; s++) { size_t i = 0; while (t[i] && s[i] == t[i]) i++; if (!t[i]) return (char *)s; if (!*s) return nullptr; } }
long lroundf(float x) { return (long)__builtin_roundf(x); }
long lround(double x) { return (long)__builtin_round(x); }
long lrintf(float x) { return (long)__builtin_rintf(x); }
long lrint(double x) { return (long)__builtin_rint(x); }
int abs(int x) { return x < 0 ? (int)(0u - (unsigned)x) : x; }
long labs(long x) { return x < 0 ? (long)(0ul - (unsigned long)x) : x; }
long strtol(const char *s, char **e, int base) {
  while (isspace(*s)) s++;
  bool neg = false; if (*s == '-' || *s == '+') neg = *s++ == '-';
  if ((base == 0 || base == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) { s += 2; base = 16; }
  if (!base) base = *s == '0' ? 8 : 10;
  long v = 0; bool sat = false;
  for (;; s++) { int d; if (*s >= '0' && *s <= '9') d = *s - '0'; else if (*s >= 'a' && *s <= 'z') d = *s - 'a' + 10; else if (*s >= 'A' && *s <= 'Z') d = *s - 'A' + 10; else break; if (d >= base) break; if (!sat && v > (0x7fffffffffffffffL - d) / base) sat = true; if (!sat) v = v * base + d; }
  if (e) *e = (char *)s;
  if (sat) return neg ? (-0x7fffffffffffffffL - 1) : 0x7fffffffffffffffL;
  return neg ? -v : v;
}
long long strtoll(const char *s, char **e, int base) { return strtol(s, e, base); }
unsigned long strtoul(const char *s, char **e, int base) {
  while (isspace(*s)) s++;
  bool neg = false, sat = false; if (*s == '-' || *s == '+') neg = *s++ == '-';
  if ((base == 0 || base == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) { s += 2; base = 16; }
  if (!base) base = *s == '0' ? 8 : 10;
  unsigned long v = 0;
  for (;; s++) { int d; if (*s >= '0' && *s <= '9') d = *s - '0'; else if (*s >= 'a' && *s <= 'z') d = *s - 'a' + 10; else if (*s >= 'A' && *s <= 'Z') d = *s - 'A' + 10; else break; if (d >= base) break; if (!sat && v > (~0ul - d) / base) sat = true; if (!sat) v = v * base + d; }
  if (e) *e = (char *)s;
  return sat ? ~0ul : neg ? 0ul - v : v;
}
unsigned long long strtoull(const char *s, char **e, int base) { return strtoul(s, e, base); }
long atol(const char *s) { return strtol(s, nullptr, 10); }
int atoi(const char *s) { return (int)strtol(s, nullptr, 10); }
// integers up to 2^53 digits and decimal fractions: enough for literals in harness scripts
double strtod(const char *s, char **e) {
  while (isspace(*s)) s++;
  bool neg = false; if (*s == '-' || *s == '+') neg = *s++ == '-';
  double v = 0, d = 1;
  for (; isdigit(*s); s++) v = v * 10 + (*s - '0');
  if (*s == '.') { s++; for (; isdigit(*s); s++) { v = v * 10 + (*s - '0'); d *= 10; } }
  if (e) *e = (char *)s;
  v /= d; return neg ? -v : v;
}
float strtof(const char *s, char **e) { return (float)strtod(s, e); }
double atof(const char *s) { return strtod(s, nullptr); }

// ------------------------------------------------------------ formatting
struct out { char *b; size_t n, k; };
static void pc(out &o, char c) { if (o.k + 1 < o.n) o.b[o.k] = c; o.k++; }
int vsnprintf(char *b, size_t n, const char *f, va_list ap) {
  out o{b, n, 0};
  for (; *f; f++) {
    if (*f != '%') { pc(o, *f); continue; }
    f++;
    bool zero = false, left = false, plus = false, alt = false;
    for (;; f++) { if (*f == '0') zero = true; else if (*f == '-') left = true; else if (*f == '+') plus = true; else if (*f == '#') alt = true; else if (*f == ' ') {} else break; }
    int w = 0, prec = -1;
    if (*f == '*') { w = va_arg(ap, int); f++; if (w < 0) { left = true; w = -w; } } else while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    int lng = 0; while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j' || *f == 't') { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng = 1; f++; }
    char t[400]; int tn = 0; bool neg = false; const char *s = t;
    switch (*f) {
    case '%': pc(o, '%'); continue;
    case 'c': t[0] = (char)va_arg(ap, int); tn = 1; break;
    case 's': { s = va_arg(ap, const char *); if (!s) s = "(null)"; tn = 0; while ((prec < 0 || tn < prec) && s[tn]) tn++; zero = false; break; }
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'p': {
      unsigned long v; unsigned base = 10;
      if (*f == 'p') { v = (unsigned long)va_arg(ap, void *); base = 16; t[tn++] = '0'; t[tn++] = 'x'; }
      else if (*f == 'd' || *f == 'i') { long x = lng ? va_arg(ap, long) : (long)va_arg(ap, int); neg = x < 0; v = neg ? -(unsigned long)x : x; }
      else { v = lng ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned); if (*f != 'u') base = 16; }
      char r[32]; int rn = 0;
      if (v <= 0xffffffffu) { unsigned u = (unsigned)v; do { unsigned d = u % base; r[rn++] = d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10; u /= base; } while (u); }
      else do { unsigned d = v % base; r[rn++] = d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10; v /= base; } while (v);
      while (rn < prec) r[rn++] = '0';
      while (rn) t[tn++] = r[--rn];
      break;
    }
    case 'f': case 'F': case 'g': case 'e': {
      double d = va_arg(ap, double); if (prec < 0) prec = 6;
      if (d != d) { t[0] = 'n'; t[1] = 'a'; t[2] = 'n'; tn = 3; zero = false; break; }
      uint64_t bits; memcpy(&bits, &d, 8); neg = bits >> 63; if (neg) d = -d;
      if (d > 1.7976931348623157e308) { t[0] = 'i'; t[1] = 'n'; t[2] = 'f'; tn = 3; zero = false; break; }
      // exact decimal expansion in a big integer: d * 10^prec rounded half to even
      memcpy(&bits, &d, 8); int ex = (int)(bits >> 52) - 1075; uint64_t m = (bits & 0xfffffffffffffull) | (1ull << 52); if ((bits >> 52) == 0) { m &= 0xfffffffffffffull; ex = -1074; }
      static uint32_t big[80]; int bn = 0; for (int i = 0; i < 80; i++) big[i] = 0;
      big[0] = (uint32_t)m; big[1] = m >> 32; bn = 2;
      auto mul = [&](uint32_t k) { uint64_t c = 0; for (int i = 0; i < bn; i++) { c += (uint64_t)big[i] * k; big[i] = (uint32_t)c; c >>= 32; } if (c) big[bn++] = (uint32_t)c; };
      for (int i = 0; i < prec; i++) mul(10);
      if (ex > 0) { int k = ex; while (k >= 31) { mul(1u << 31); k -= 31; } if (k) mul(1u << k); }
      else if (ex < 0) {
        int k = -ex; bool half = false, sticky = false;
        for (int i = 0; i < k; i++) { // shift right one bit, tracking the remainder
          if (half) sticky = true; half = big[0] & 1;
          for (int j = 0; j < bn; j++) big[j] = (big[j] >> 1) | (j + 1 < bn ? big[j + 1] << 31 : 0);
        }
        if (half && (sticky || (big[0] & 1))) { for (int j = 0; j < 80; j++) if (++big[j]) { if (j >= bn) bn = j + 1; break; } }
      }
      char r[400]; int rn = 0;
      for (;;) { while (bn && !big[bn - 1]) bn--; if (!bn) break; uint64_t c = 0; for (int j = bn - 1; j >= 0; j--) { c = (c << 32) | big[j]; big[j] = (uint32_t)(c / 10); c %= 10; } r[rn++] = '0' + (char)c; }
      while (rn <= prec) r[rn++] = '0';
      while (rn) { t[tn++] = r[--rn]; if (rn == prec && prec) t[tn++] = '.'; }
      break;
    }
    default: pc(o, '?'); continue;
    }
    bool sign = neg || (plus && (*f == 'd' || *f == 'i' || *f == 'f'));
    int len = tn + sign;
    if (!left && !zero) for (int i = len; i < w; i++) pc(o, ' ');
    if (sign) pc(o, neg ? '-' : '+');
    if (!left && zero) for (int i = len; i < w; i++) pc(o, '0');
    for (int i = 0; i < tn; i++) pc(o, s[i]);
    if (left) for (int i = len; i < w; i++) pc(o, ' ');
  }
  if (n) b[o.k < n ? o.k : n - 1] = 0;
  return (int)o.k;
}
int snprintf(char *b, size_t n, const char *f, ...) { va_list a; va_start(a, f); int r = vsnprintf(b, n, f, a); va_end(a); return r; }
int vsprintf(char *b, const char *f, va_list ap) { return vsnprintf(b, (size_t)1 << 20, f, ap); }
int sprintf(char *b, const char *f, ...) { va_list a; va_start(a, f); int r = vsnprintf(b, (size_t)1 << 20, f, a); va_end(a); return r; }

// ------------------------------------------------------------ files in memory
static const size_t PATH = 1600;
struct vfile { char name[PATH]; unsigned char *d; size_t n, cap; };
struct vfd { vfile *f; size_t pos, flushed; bool wr, open, err; };
static vfile *files[200]; static int nfiles = 0; static vfd fds[64]; static int nfds = 0;
// injected faults: 1 the file holds n bytes, 2 the n-th flush fails, 3 closing fails, 4 opening for writing fails
static int fault_kind = 0, fault_n = 0, fault_count = 0; static bool fault_seen = false;
void nsym_fault(int kind, int n) { fault_kind = kind; fault_n = n; fault_count = 0; fault_seen = false; }
void nsym_deadline(int) {}
int nsym_fault_hit(void) { return fault_seen; }
int nsym_open_files(void) { int k = 0; for (int i = 0; i < nfds; i++) k += fds[i].open; return k; }
// '.', 'x/..' and doubled slashes name the same file
static void canon(const char *p, char *o) {
  size_t k = 0, start[40]; int depth = 0; if (*p == '/') o[k++] = '/';
  while (*p) {
    while (*p == '/') p++; if (!*p) break;
    const char *e = p; while (*e && *e != '/') e++;
    size_t n = e - p;
    if (n == 1 && p[0] == '.') { p = e; continue; }
    if (n == 2 && p[0] == '.' && p[1] == '.' && depth > 0 && !(o[start[depth - 1]] == '.' && o[start[depth - 1] + 1] == '.' && k - start[depth - 1] == 3)) { k = start[--depth]; p = e; continue; }
    if (depth >= 40 || k + n + 2 >= PATH) { k = 0; break; }
    start[depth++] = k; for (size_t i = 0; i < n; i++) o[k++] = p[i];
    if (*e) o[k++] = '/'; p = e;
  }
  o[k] = 0;
}
static vfile *ffind(const char *q) { char p[PATH]; canon(q, p); for (int i = 0; i < nfiles; i++) if (!strcmp(files[i]->name, p)) return files[i]; return nullptr; }
static vfile *fnew(const char *q) { vfile *f = ffind(q); char p[PATH]; canon(q, p); if (!f) { if (nfiles >= 200) abort(); f = (vfile *)malloc(sizeof(vfile)); memset(f, 0, sizeof(vfile)); files[nfiles++] = f; strncpy(f->name, p, PATH - 1); f->d = nullptr; f->cap = 0; } f->n = 0; return f; }
static void fgrow(vfile *f, size_t n) { if (n > f->cap) { size_t c = f->cap ? f->cap * 2 : 256; while (c < n) c *= 2; unsigned char *d = (unsigned char *)malloc(c); if (f->n) memcpy(d, f->d, f->n); free(f->d); f->d = d; f->cap = c; } }
void nsym_file_put(const char *path, const void *data, size_t n) { vfile *f = fnew(path); fgrow(f, n); if (n) memcpy(f->d, data, n); f->n = n; }
FILE *fopen(const char *p, const char *m) {
  vfile *f; bool wr = m[0] == 'w';
  if (wr && fault_kind == 4) { fault_seen = true; return nullptr; }
  if (wr) f = fnew(p); else { f = ffind(p); if (!f) return nullptr; }
  vfd *d = nullptr;
  for (int i = 0; i < nfds && !d; i++) if (!fds[i].open) d = &fds[i];
  if (!d) { if (nfds >= 64) abort(); d = &fds[nfds++]; }
  d->f = f; d->pos = d->flushed = 0; d->wr = wr; d->open = true; d->err = false;
  return (FILE *)d;
}
// data reaches the file in blocks, as with stdio: a failure shows in a later call
static bool flush(vfd *d) {
  if (d->pos == d->flushed) return true;
  bool bad = (fault_kind == 1 && d->pos > (size_t)fault_n) || (fault_kind == 2 && fault_count++ == fault_n);
  d->flushed = d->pos;
  if (bad) { fault_seen = true; d->err = true; }
  return !bad;
}
int fclose(FILE *h) { vfd *d = (vfd *)h; if (!d->open) abort(); bool ok = !d->wr || flush(d); if (d->wr && fault_kind == 3) { ok = false; fault_seen = true; } d->open = false; return ok ? 0 : EOF; }
int fflush(FILE *h) { vfd *d = (vfd *)h; if (!h) { bool ok = true; for (int i = 0; i < nfds; i++) if (fds[i].open && fds[i].wr) ok &= flush(&fds[i]); return ok ? 0 : EOF; } if (d < fds || d >= fds + 64) return 0; if (!d->open) abort(); return !d->wr || flush(d) ? 0 : EOF; }
size_t fread(void *p, size_t sz, size_t n, FILE *h) {
  vfd *d = (vfd *)h; if (!d->open) abort(); if (!sz || !n) return 0;
  size_t avail = d->pos < d->f->n ? d->f->n - d->pos : 0, want;
  want = sz == 1 ? n : n > ((size_t)1 << 60) / sz ? ~(size_t)0 : n * sz;
  size_t k = want >= avail ? avail : (size_t)(unsigned)nsym_conc((int)want);
  if (k) memcpy(p, d->f->d + d->pos, k); d->pos += k; return k / sz;
}
size_t fwrite(const void *p, size_t sz, size_t n, FILE *h) {
  vfd *d = (vfd *)h; if (!d->open || !d->wr) abort(); size_t k = sz * n; if (!k) return 0;
  fgrow(d->f, d->pos + k); memcpy(d->f->d + d->pos, p, k); d->pos += k; if (d->pos > d->f->n) d->f->n = d->pos;
  if (fault_kind && d->pos - d->flushed > 4096 && !flush(d)) return 0;
  return n;
}
int fprintf(FILE *h, const char *f, ...) {
  vfd *d = (vfd *)h; if (d < fds || d >= fds + 64) return 0;   // stdout, stderr
  char b[2048]; va_list a; va_start(a, f); int r = vsnprintf(b, sizeof b, f, a); va_end(a);
  fwrite(b, 1, r < 2047 ? r : 2047, h); return r;
}
int fputs(const char *s, FILE *h) { vfd *d = (vfd *)h; if (d < fds || d >= fds + 64) return 0; fwrite(s, 1, strlen(s), h); return 0; }
int fputc(int c, FILE *h) { vfd *d = (vfd *)h; if (d < fds || d >= fds + 64) return 0; char x = (char)c; fwrite(&x, 1, 1, h); return c; }
int fseek(FILE *h, long o, int w) { vfd *d = (vfd *)h; if (!d->open) abort(); long b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (long)d->pos : (long)d->f->n; if (b + o < 0) return -1; d->pos = b + o; return 0; }
void rewind(FILE *h) { ((vfd *)h)->pos = 0; }
long ftell(FILE *h) { vfd *d = (vfd *)h; if (!d->open) abort(); return (long)d->pos; }
int fgetc(FILE *h) { vfd *d = (vfd *)h; if (!d->open) abort(); if (d->pos >= d->f->n) return EOF; return d->f->d[d->pos++]; }
int getc(FILE *h) { return fgetc(h); }
int putc(int c, FILE *h) { return fputc(c, h); }
char *fgets(char *b, int n, FILE *h) { int k = 0; if (n <= 0) return nullptr; while (k < n - 1) { int c = fgetc(h); if (c == EOF) break; b[k++] = (char)c; if (c == '\n') break; } if (!k && n > 1) return nullptr; b[k] = 0; return b; }
int feof(FILE *h) { vfd *d = (vfd *)h; return d->pos >= d->f->n; }
int ferror(FILE *h) { return ((vfd *)h)->err; }
int remove(const char *p) { vfile *f = ffind(p); if (!f) return -1; f->name[0] = 0; return 0; }
int *__errno_location(void) { static int e; return &e; }
}
