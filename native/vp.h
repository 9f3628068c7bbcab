/* Common part of the native replay/conformance harnesses.
   A harness includes the real sources of the tree under test and compares them
   with an executable form of the contract; it prints FAIL with the failing
   input and exits 1 on the first disagreement. */
#ifndef VP_H
#define VP_H
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <stdint.h>
static char vp_cur[65536];
static unsigned long vp_cases, vp_distinct;
static int vp_samples, vp_quiet_exit;
static const char *vp_expect_exit;
static void vp_case(const char *fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(vp_cur, sizeof vp_cur, fmt, ap);
  va_end(ap);
  vp_cases++;
}
static void vp_sample(void) { if (vp_samples < 6) { vp_samples++; printf("SAMPLE %.300s\n", vp_cur); } }
static void vp_nontrivial(void) { vp_distinct++; }
static void vp_fail(const char *fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  printf("FAIL ");
  vprintf(fmt, ap);
  printf(" | input: %s\n", vp_cur);
  va_end(ap);
  printf("CASES %lu\nDISTINCT %lu\n", vp_cases, vp_distinct);
  fflush(stdout);
  _exit(1);
}
static void vp_crash(int sig)
{
  static char b[70000];
  int n = snprintf(b, sizeof b, "FAIL crash (signal %d) | input: %s\n", sig, vp_cur);
  if (write(1, b, n)) {}
  _exit(1);
}
#ifdef __SANITIZE_ADDRESS__
void __asan_on_error(void);
void __asan_on_error(void)
{
  static char b[70000];
  int n;
  fflush(stdout);
  n = snprintf(b, sizeof b, "FAIL invalid memory access | input: %s\n", vp_cur);
  if (write(1, b, n)) {}
}
#endif
static uint64_t vp_s;
static int vp_thorough;
static uint64_t vp_rnd(void)
{
  uint64_t z = (vp_s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static unsigned vp_below(unsigned n) { return n ? (unsigned)(vp_rnd() % n) : 0; }
static void vp_init(int argc, char **argv)
{
  vp_s = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
  vp_thorough = argc > 2 && !strcmp(argv[2], "thorough");
  signal(SIGABRT, vp_crash);
#ifndef __SANITIZE_ADDRESS__
  signal(SIGSEGV, vp_crash);
  signal(SIGBUS, vp_crash);
#endif
  signal(SIGFPE, vp_crash);
}
static int vp_done(void)
{
  printf("CASES %lu\nDISTINCT %lu\nOK\n", vp_cases, vp_distinct);
  fflush(stdout);
  return 0;
}
static char *vp_esc(const void *p, int n)
{
  static char b[8][8192];
  static int r;
  char *o = b[r = (r + 1) & 7], *s = o;
  const unsigned char *c = p;
  for (; n > 0 && s < o + 8180; n--, c++) {
    if (*c >= 32 && *c < 127 && *c != '\\' && *c != '"') *s++ = *c;
    else s += sprintf(s, "\\x%02x", *c);
  }
  *s = 0;
  return o;
}
/* what the program's other files provide */
#ifndef VP_NO_STUBS
#include <sys/types.h>
int verbose = 0;
int do_hardlinks = 0;
void unlock_and_exit(int c) { if (vp_expect_exit) { printf("EXIT %s\n", vp_expect_exit); } vp_fail("program would exit with status %d", c); }
void report_error(const char *s, const char *f) { }
void out_of_mem(char *file, int line, size_t size) { vp_fail("out of memory"); }
#endif
#endif
