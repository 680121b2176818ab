/* Interface between harnesses (instrumented C) and the symbolic-execution runtime.
 * In the native replay build the same functions read concrete values from a file. */
#ifndef SYMRT_H
#define SYMRT_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
/* a fresh symbolic variable of `bits` bits whose value ranges over lo..hi (unsigned) */
uint64_t sym_var(const char *name, uint64_t lo, uint64_t hi, int bits);
/* fix a symbolic value on this path; every other feasible value becomes another path */
uint64_t sym_conc64(uint64_t v);
void sym_reject(void) __attribute__((noreturn));            /* path outside the assumptions */
void sym_fail(const char *msg) __attribute__((noreturn));   /* property violated on this path */
void sym_note(const char *s);                               /* describe this path (evidence sample) */
int sym_nontrivial(void);                                   /* mark path as non-trivial */
int sym_native(void);
void sym_clear(void *p, size_t n);                          /* forget shadows of raw memory */
int sym_run(void (*fn)(void *), void *arg);                 /* run fn; returns 0, or 1+code if sym_exit was called */
void sym_exit(int code) __attribute__((noreturn));
void sym_limit_exceeded(void) __attribute__((noreturn));    /* harness resource bound hit */
const char *sym_param(const char *name);                    /* harness parameter (tier dependent bound) */
void sym_harness(void);                                     /* supplied by the harness */
#ifdef __cplusplus
}
#endif
static inline int sym_int(const char *n, int lo, int hi) { return (int)sym_var(n, (uint64_t)lo, (uint64_t)hi, 32); }
static inline unsigned char sym_byte(const char *n, int lo, int hi) { return (unsigned char)sym_var(n, (uint64_t)lo, (uint64_t)hi, 8); }
static inline int sym_pick(const char *n, int lo, int hi) { return (int)sym_conc64((uint64_t)(uint32_t)sym_int(n, lo, hi)); }
static inline int sym_conc(int v) { return (int)sym_conc64((uint64_t)(uint32_t)v); }
#define SYM_ASSUME(c) do { if (!(c)) sym_reject(); } while (0)
#endif
