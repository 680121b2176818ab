/* Scanning of C code inside a grammar, shared by y_act.c and y_code.c. */
#ifndef AC_H
#define AC_H
#include "hc.h"
static int id1(int c) { return isalpha(c) || c == '_' || c == '$'; }
static int id2(int c) { return isalnum(c) || c == '_' || c == '$'; }
enum { OK_, ERR, UNSPEC };
static void e_d(txt *e, const char *a, int v, const char *tag) { t_s(e, a); t_c(e, '['); t_d(e, v); t_c(e, ']'); if (tag) { t_c(e, '.'); t_s(e, tag); } }
/* string, character and comment at *p (which stands at the quote or slash): copied to e, comments as C comments */
static int quoted(const char *s, int n, int *p, txt *e) {
  int q = s[*p], i = *p + 1; t_c(e, q);
  for (;; i++) { if (i >= n) return ERR; int c = s[i]; t_c(e, c); if (c == q) { *p = i + 1; return OK_; } if (c == '\n') return ERR; if (c == '\\') { if (++i >= n) return ERR; t_c(e, s[i]); if (s[i] == '\n' && i + 1 >= n) return ERR; } }
}
static int comment(const char *s, int n, int *p, txt *e) {
  int i = *p; t_c(e, '/'); if (i + 1 < n && s[i + 1] == '/') { t_c(e, '*'); for (i += 2; i < n && s[i] != '\n'; i++) { t_c(e, s[i]); if (s[i] == '*' && s[i + 1] == '/') t_c(e, ' '); } t_s(e, "*/"); *p = i; return OK_; }
  if (i + 1 < n && s[i + 1] == '*') { t_c(e, '*'); for (i += 2;; i++) { if (i >= n) return ERR; t_c(e, s[i]); if (s[i] == '*' && i + 1 < n && s[i + 1] == '/') { t_c(e, '/'); *p = i + 2; return OK_; } } }
  *p = i + 1; return OK_;
}
#endif
