/* Native replay runtime: same harness, same code under test, concrete values from a file. */
#include "symrt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
static FILE *rf; static char line[4096]; static char pk[32][64], pv[32][256]; static int np;
static jmp_buf rb[16]; static int rd;
const char *__asan_default_options(void) { return "detect_leaks=0:exitcode=66:allocator_may_return_null=1:detect_odr_violation=0:max_allocation_size_mb=2048"; }
uint64_t sym_var(const char *name, uint64_t lo, uint64_t hi, int bits) {
  uint64_t v = lo; char nm[64]; unsigned long x;
  if (rf && fgets(line, sizeof line, rf) && sscanf(line, "v %63s %lu", nm, &x) == 2) v = x;
  if (v < lo || v > hi) v = lo;
  return v;
}
uint64_t sym_conc64(uint64_t v) { return v; }
void sym_reject(void) { fflush(stdout); fprintf(stderr, "REPLAY: rejected\n"); _Exit(3); }
void sym_fail(const char *m) { fflush(stdout); fprintf(stderr, "REPLAY-FAIL: %s\n", m); _Exit(1); }
void sym_limit_exceeded(void) { _Exit(4); }
void sym_note(const char *s) { fprintf(stderr, "CASE: %s\n", s); }
int sym_nontrivial(void) { return 0; }
int sym_native(void) { return 1; }
void sym_clear(void *p, size_t n) { (void)p; (void)n; }
int sym_run(void (*fn)(void *), void *arg) { int d = rd; int r = setjmp(rb[d]); if (r == 0) { rd = d + 1; fn(arg); rd = d; return 0; } rd = d; return r; }
void sym_exit(int code) { if (!rd) sym_fail("exit called outside a run"); longjmp(rb[rd - 1], 1 + (code & 0xff)); }
const char *sym_param(const char *n) { for (int i = 0; i < np; i++) if (!strcmp(pk[i], n)) return pv[i]; return 0; }
int main(int argc, char **argv) {
  if (argc < 2 || !(rf = fopen(argv[1], "r"))) { fprintf(stderr, "usage: replay FILE\n"); return 2; }
  long pos = ftell(rf);
  while (fgets(line, sizeof line, rf)) {
    if (line[0] == 'p' && line[1] == ' ' && np < 32) { sscanf(line, "p %63s %255s", pk[np], pv[np]); np++; }
    else if (line[0] == 'v') break;
    pos = ftell(rf);
  }
  fseek(rf, pos, SEEK_SET);
  sym_harness();
  fprintf(stderr, "REPLAY: held\n");
  return 0;
}
