// Harness API: symbolic under the engine, replayed from a file natively.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void nsym_make(void *p, size_t n, const char *name);   // one variable if n in {1,2,4,8}
void nsym_bytes(void *p, size_t n, const char *name);  // n byte variables
void nsym_assume(int c);
void nsym_check(int c, const char *msg);
void nsym_cover(const char *msg);
void nsym_note(const char *msg);
void nsym_out(int v);   // a value the native replay of a path must reproduce
int nsym_conc(int v);   // fork so that v is concrete
int nsym_arg(int i);    // integer parameter of this run
int nsym_tier(void);    // 0 quick, 1 thorough
int nsym_symbolic(void);
void nsym_debug(const char *m);
void nsym_debugi(const char *m, int v);
// a file in the (in-memory, or scratch) file system
void nsym_file_put(const char *path, const void *data, size_t n);
// 0 none, 1 a file can hold n bytes, 2 the n-th write to a file fails, 3 closing a written file fails, 4 opening one fails
void nsym_fault(int kind, int n);
int nsym_fault_hit(void);
int nsym_open_files(void);
void nsym_deadline(int seconds);   // natively: end the process as a failure after this time (0: off)
}
static inline int nsym_int(const char *n) { int v = 0; nsym_make(&v, 4, n); return v; }
static inline unsigned char nsym_u8(const char *n) { unsigned char v = 0; nsym_make(&v, 1, n); return v; }
static inline int nsym_range(const char *n, int lo, int hi) { int v = nsym_int(n); nsym_assume(v >= lo); nsym_assume(v <= hi); return v; }
// one path per value in [0,n)
static inline int nsym_choose(const char *nm, int n) {
  unsigned char v = nsym_u8(nm); nsym_assume(v < n); return nsym_conc(v);
}
