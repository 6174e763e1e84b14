// C14: damaged program files
#include "common.hpp"
static const char *SRC =
  "function f(p, q)\n var l = \"one\"\n return l + p\nend\nfunction main()\n return f(len(\"x\"), 2)\nend\n";
static std::vector<unsigned char> saved(const char *src = SRC) {
  world w; std::vector<unsigned char> b;
  if (!w.compile(src) || !w.prog.serial_save("good.bin")) { nsym_check(0, "a program can be saved"); return b; }
  FILE *f = fopen("good.bin", "rb"); fseek(f, 0, SEEK_END); long n = ftell(f); fseek(f, 0, SEEK_SET);
  b.resize(n); size_t k = fread(b.data(), 1, n, f); fclose(f); if ((long)k != n) b.clear();
  return b;
}
// load; the object must stay usable whatever happened
static bool load(const unsigned char *d, size_t n) {
  nsym_file_put("bad.bin", d, n);
  world w; int nf = nsym_open_files();
  nsym_deadline(4);
  bool ok = false, threw = false;
  try { ok = w.prog.serial_load("bad.bin"); } catch (...) { threw = true; }
  nsym_deadline(0);
  nsym_check(!threw, "loading any file never throws");
  nsym_check(nsym_open_files() == nf, "loading any file closes it again");
  nsym_check(w.prog.strings().size() <= n && w.prog.functions().size() <= n && w.prog.syscalls().size() <= n && w.prog.size() <= n && w.prog.line_table().size() <= n, "loading takes no more than the file holds");
  return ok;
}
// ---- cut short anywhere ----------------------------------------------------------
extern "C" void c14_cut() {
  auto b = saved(); int n = nsym_conc(nsym_range("n", 0, (int)b.size()));
  bool ok = load(b.data(), n);
  nsym_out(ok);
  nsym_check(ok == (n == (int)b.size()), "a file cut short is reported, the whole file loads");
}
//@ entry c14_cut
extern "C" void c14_after() { // the object can be used again after a failure
  auto b = saved(); int n = nsym_conc(nsym_range("n", 0, (int)b.size() - 1));
  nsym_file_put("bad.bin", b.data(), n); nsym_file_put("good.bin", b.data(), b.size());
  world w; nsym_check(!w.prog.serial_load("bad.bin"), "a file cut short is reported, the whole file loads");
  nsym_check(w.prog.serial_load("good.bin"), "a good file loads after a damaged one"); w.resolve();
  vm_t vm(w.prog); nsym_check(vm.call_init(), "a good file loads after a damaged one");
  result r = run(vm, "main"); nsym_check(r.is_str("one1"), "a good file loads after a damaged one");
}
//@ entry c14_after
// ---- any bytes in a window, anywhere; the file also possibly cut -------------------
extern "C" void c14_window() {
  auto b = saved(); int W = nsym_arg(1), part = nsym_arg(0), parts = 24;
  int lo = (int)b.size() * part / parts, hi = (int)b.size() * (part + 1) / parts - 1;
  int o = nsym_conc(nsym_range("at", lo, hi)); if (o + W > (int)b.size()) W = (int)b.size() - o;
  unsigned char x[16]; nsym_bytes(x, W, "x"); memcpy(b.data() + o, x, W);
  load(b.data(), b.size());
}
//@ entry c14_window args=0-23 args1=1,4 targs1=1,4,8,12 time=100
// ---- any two 4-byte fields ------------------------------------------------------------
extern "C" void c14_two() {
  auto b = saved(); int part = nsym_arg(0), parts = 16; int n4 = (int)b.size() / 4;
  int p = nsym_conc(nsym_range("p", n4 * part / parts, n4 * (part + 1) / parts - 1)) * 4, q = nsym_conc(nsym_range("q", 0, n4 - 1)) * 4;
  if (q <= p) return;
  unsigned char x[8]; nsym_bytes(x, 8, "x"); memcpy(b.data() + p, x, 4); memcpy(b.data() + q, x + 4, 4);
  load(b.data(), b.size());
}
//@ entry c14_two args=0-15 tier=thorough time=1200
// ---- files of nothing but unknown bytes ---------------------------------------------------
extern "C" void c14_any() {
  int n = nsym_arg(0), magic = nsym_arg(1); unsigned char x[64]; nsym_bytes(x, n, "x");
  if (magic && n >= 4) { x[0] = 'C'; x[1] = 'C'; x[2] = 'M'; x[3] = 'L'; }
  bool ok = load(x, n);
  if (n < 4) nsym_check(!ok, "a file cut short is reported, the whole file loads");
}
//@ entry c14_any args=0,1,3,4,5,8,12,16,20,24,28 args1=0-1 targs=0-36 time=60
// ---- the right shape with free sizes: header, one function, code, lines, strings -----------
extern "C" void c14_shape() {
  int k = nsym_arg(0), tail = nsym_arg(1);
  std::vector<unsigned char> b; auto i32 = [&](int v) { for (int j = 0; j < 4; j++) b.push_back((unsigned char)(v >> (8 * j))); };
  auto sym = [&](const char *n) { int v = nsym_int(n); b.resize(b.size() + 4); memcpy(&b[b.size() - 4], &v, 4); };
  i32(('L' << 24) | ('M' << 16) | ('C' << 8) | 'C');
  switch (k) {
  case 0: sym("nsys"); sym("len"); break;
  case 1: i32(1); sym("len"); i32(0); break;
  case 2: i32(0); sym("nfun"); sym("len"); break;
  case 3: i32(0); i32(1); i32(1); b.push_back('f'); sym("cs"); sym("ce"); sym("nloc"); sym("l"); break;
  case 4: i32(0); i32(1); i32(1); b.push_back('f'); i32(0); i32(1); i32(0); sym("narg"); sym("l"); break;
  case 5: i32(0); i32(0); sym("code"); break;
  case 6: i32(0); i32(0); i32(1); b.push_back(0); sym("nlines"); sym("pc"); break;
  case 7: i32(0); i32(0); i32(0); i32(0); sym("nstr"); sym("l"); break;
  case 8: i32(0); i32(0); i32(0); i32(0); i32(2); sym("l"); break;
  }
  for (int j = 0; j < tail; j++) b.push_back((unsigned char)(j % 5 == 0));
  load(b.data(), b.size());
}
//@ entry c14_shape args=0-8 args1=0,3,8,30 targs1=0,1,2,3,4,8,16,30,100
//@ bounds a saved program of about 400 bytes: cut at every length; any 1 and any 4 consecutive bytes (thorough 12, and any two aligned 4-byte fields) replaced by any values; files of up to 28 (thorough 36) arbitrary bytes with and without the right magic; 9 file shapes with free sizes
//@ outside running a damaged program that loads; files changed in more places at once
