// Redirects a program's standard streams to files of the (in-memory, or scratch)
// file system, and its exit to an exception, so that a harness can call its main.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
struct h_exit_t { int code; };
FILE *h_stdin(); FILE *h_stdout(); FILE *h_stderr();
[[noreturn]] inline void h_exit(int c) { throw h_exit_t{c}; }
int h_printf(const char *f, ...);
namespace std { using ::h_exit; using ::h_printf; using ::h_stdin; using ::h_stdout; using ::h_stderr; }
#undef stdin
#undef stdout
#undef stderr
#undef getchar
#undef putchar
#define stdin h_stdin()
#define stdout h_stdout()
#define stderr h_stderr()
#define exit(c) h_exit(c)
#define printf h_printf
#define puts(s) fprintf(h_stdout(), "%s\n", s)
#define getchar() fgetc(h_stdin())
#define putchar(c) fputc(c, h_stdout())
