#include <sys/stat.h>
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
// Native side of the harness API: replays one solver assignment against the
// real code.  argv: entry-name inputs-file [int args...]
#include "../harness/nsym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <map>
#include <string>
#include <unistd.h>
#include <vector>
static std::map<std::string, std::map<unsigned, std::pair<unsigned, unsigned long long>>> in;
static std::map<std::string, int> occ;
static std::vector<int> args;
static int tier = 0;
static bool checked = false;
static std::string uniq(const char *n) { int k = occ[n]++; return k ? std::string(n) + "#" + std::to_string(k) : n; }
extern "C" {
void nsym_make(void *p, size_t n, const char *name) {
  std::string u = uniq(name); auto &m = in[u];
  if (n == 1 || n == 2 || n == 4 || n == 8) { unsigned long long v = m.count(0) ? m[0].second : 0; memcpy(p, &v, n); return; }
  for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = m.count(i) ? m[i].second : 0;
}
void nsym_bytes(void *p, size_t n, const char *name) {
  std::string u = uniq(name); auto &m = in[u];
  for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = m.count(i) ? m[i].second : 0;
}
void nsym_assume(int c) { if (!c) { printf("NSYM-ASSUME-FALSE\n"); fflush(stdout); _exit(0); } }
void nsym_check(int c, const char *msg) { checked = true; if (!c) { printf("NSYM-FAIL %s\n", msg); fflush(stdout); _exit(77); } }
void nsym_cover(const char *) {}
void nsym_note(const char *m) { printf("note: %s\n", m); fflush(stdout); }
void nsym_out(int v) { printf("OUT %u\n", (unsigned)v); }
int nsym_conc(int v) { return v; }
int nsym_arg(int i) { return i < (int)args.size() ? args[i] : 0; }
int nsym_tier(void) { return tier; }
int nsym_symbolic(void) { return 0; }
void nsym_debug(const char *m) { printf("debug: %s\n", m); }
void nsym_debugi(const char *m, int v) { printf("debug: %s %d\n", m, v); }
void nsym_file_put(const char *path, const void *data, size_t n) {
  FILE *f = fopen(path, "wb"); if (!f) { perror(path); _exit(3); } fwrite(data, 1, n, f); fclose(f);
}
}
// ---- injected write faults: files opened for writing go through a cookie --------
static int fault_kind = 0, fault_n = 0, fault_count = 0; static bool fault_seen = false; static size_t fault_total = 0;
static ssize_t cw(void *c, const char *b, size_t n) {
  fault_total += n;
  if ((fault_kind == 1 && fault_total > (size_t)fault_n) || (fault_kind == 2 && fault_count++ == fault_n)) { fault_seen = true; errno = ENOSPC; return 0; }
  return fwrite(b, 1, n, (FILE *)c) == n ? (ssize_t)n : 0;
}
static int cc(void *c) { fclose((FILE *)c); if (fault_kind == 3) { fault_seen = true; errno = EIO; return -1; } return 0; }
extern "C" {
void nsym_fault(int kind, int n) { fault_kind = kind; fault_n = n; fault_count = 0; fault_seen = false; fault_total = 0; }
void nsym_deadline(int s) { alarm(s); }
int nsym_fault_hit(void) { return fault_seen; }
int nsym_open_files(void) { int k = 0; if (DIR *d = opendir("/proc/self/fd")) { while (readdir(d)) k++; closedir(d); } return k; }
// Every path the code under test opens becomes a plain file of the scratch
// directory, so that no path, absolute or with '..', reaches anything else.
static bool confined = false;
// '.', 'x/..' and doubled slashes name the same file, as in the model
static std::string canon(const std::string &p) {
  std::vector<std::string> parts; size_t i = 0; bool dir = false;
  while (i < p.size()) {
    if (p[i] == '/') { i++; dir = true; continue; }
    size_t e = p.find('/', i); if (e == std::string::npos) e = p.size();
    std::string n = p.substr(i, e - i); i = e; dir = false;
    if (n == ".") continue;
    if (n == ".." && !parts.empty() && parts.back() != "..") parts.pop_back(); else parts.push_back(n);
  }
  std::string o = p[0] == '/' ? "/" : ""; for (size_t k = 0; k < parts.size(); k++) o += (k ? "/" : "") + parts[k];
  return dir ? o + "/" : o;
}
FILE *fopen64(const char *path, const char *m) { return fopen(path, m); }
FILE *fopen(const char *path, const char *m) {
  static FILE *(*real)(const char *, const char *) = (FILE * (*)(const char *, const char *))dlsym(RTLD_NEXT, "fopen");
  static std::map<std::string, std::string> names; const char *p = path;
  if (confined && *path) { auto &n = names[canon(path)]; if (n.empty()) n = "file" + std::to_string(names.size()); p = n.c_str(); }
  if (!fault_kind || m[0] != 'w') return real(p, m);
  if (fault_kind == 4) { fault_seen = true; errno = EACCES; return nullptr; }
  FILE *f = real(p, m); if (!f) return nullptr;
  cookie_io_functions_t io = {nullptr, cw, nullptr, cc};
  FILE *k = fopencookie(f, "w", io); setvbuf(k, nullptr, _IOFBF, 4096); return k;
}
}
int main(int argc, char **argv) {
  if (argc < 3) return 3;
  if (FILE *f = fopen(argv[2], "r")) {
    char nm[256]; unsigned idx, w; unsigned long long v;
    while (fscanf(f, "%255s %u %u %llu", nm, &idx, &w, &v) == 4) in[nm][idx] = {w, v};
    fclose(f);
  }
  if (argc > 3) tier = atoi(argv[3]);
  for (int i = 4; i < argc; i++) args.push_back(atoi(argv[i]));
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 3; }
  confined = true;
  fn();
  printf("NSYM-DONE\n");
  fflush(stdout);
  _exit(0);
}
