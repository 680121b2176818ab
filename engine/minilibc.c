/* A small C library for code under symbolic execution.  Everything is plain C that the engine
 * instruments, so symbolic bytes flow through it; files live in memory; exit() unwinds to sym_run. */
#define ML_NO_RENAME
#include "ml.h"
typedef unsigned char uc;
int ml_errno;
size_t ml_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
char *ml_strcpy(char *d, const char *s) { size_t i = 0; while ((d[i] = s[i])) i++; return d; }
char *ml_strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *ml_strcat(char *d, const char *s) { ml_strcpy(d + ml_strlen(d), s); return d; }
char *ml_strncat(char *d, const char *s, size_t n) { char *e = d + ml_strlen(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
int ml_strcmp(const char *a, const char *b) { for (;; a++, b++) { if (*a != *b) return (int)(uc)*a - (int)(uc)*b; if (!*a) return 0; } }
int ml_strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (int)(uc)*a - (int)(uc)*b; if (!*a) return 0; } return 0; }
int ml_strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int x = ml_tolower((uc)*a), y = ml_tolower((uc)*b); if (x != y) return x - y; if (!x) return 0; } }
int ml_strncasecmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { int x = ml_tolower((uc)*a), y = ml_tolower((uc)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
char *ml_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *ml_strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *ml_strstr(const char *h, const char *n) { if (!*n) return (char *)h; for (; *h; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char *)h; } return 0; }
char *ml_strdup(const char *s) { size_t n = ml_strlen(s) + 1; char *p = ml_malloc(n); if (p) ml_memcpy(p, s, n); return p; }
size_t ml_strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char *ml_strndup(const char *s, size_t m) { size_t n = ml_strnlen(s, m); char *p = ml_malloc(n + 1); if (p) { ml_memcpy(p, s, n); p[n] = 0; } return p; }
static int in(char c, const char *set) { for (; *set; set++) if (*set == c) return 1; return 0; }
size_t ml_strspn(const char *s, const char *set) { size_t n = 0; while (s[n] && in(s[n], set)) n++; return n; }
size_t ml_strcspn(const char *s, const char *set) { size_t n = 0; while (s[n] && !in(s[n], set)) n++; return n; }
char *ml_strpbrk(const char *s, const char *set) { for (; *s; s++) if (in(*s, set)) return (char *)s; return 0; }
char *ml_strtok(char *s, const char *d) { static char *p; if (s) p = s; if (!p) return 0; p += ml_strspn(p, d); if (!*p) { p = 0; return 0; } char *r = p; p += ml_strcspn(p, d); if (*p) *p++ = 0; else p = 0; return r; }
char *ml_strerror(int e) { (void)e; return "error"; }
void *ml_memcpy(void *d, const void *s, size_t n) { if (n) __builtin_memcpy(d, s, n); return d; }
void *ml_memmove(void *d, const void *s, size_t n) { if (n) __builtin_memmove(d, s, n); return d; }
void *ml_memset(void *d, int c, size_t n) { if (n) __builtin_memset(d, c, n); return d; }
int ml_memcmp(const void *a, const void *b, size_t n) { const uc *x = a, *y = b; for (; n; n--, x++, y++) if (*x != *y) return (int)*x - (int)*y; return 0; }
void *ml_memchr(const void *a, int c, size_t n) { const uc *x = a; for (; n; n--, x++) if (*x == (uc)c) return (void *)x; return 0; }
/* character classes without branches, so that one query covers the class */
#define RNG(c, a, b) ((unsigned)(c) - (unsigned)(a) <= (unsigned)(b) - (unsigned)(a))
int ml_isdigit(int c) { return RNG(c, '0', '9'); }
int ml_isupper(int c) { return RNG(c, 'A', 'Z'); }
int ml_islower(int c) { return RNG(c, 'a', 'z'); }
int ml_isalpha(int c) { return RNG((unsigned)c | 32, 'a', 'z'); }
int ml_isalnum(int c) { return RNG((unsigned)c | 32, 'a', 'z') | RNG(c, '0', '9'); }
int ml_isspace(int c) { return (c == ' ') | RNG(c, 9, 13); }
int ml_isblank(int c) { return (c == ' ') | (c == 9); }
int ml_isprint(int c) { return RNG(c, 32, 126); }
int ml_isgraph(int c) { return RNG(c, 33, 126); }
int ml_ispunct(int c) { return ml_isgraph(c) & !ml_isalnum(c); }
int ml_iscntrl(int c) { return RNG(c, 0, 31) | (c == 127); }
int ml_isxdigit(int c) { return RNG(c, '0', '9') | RNG((unsigned)c | 32, 'a', 'f'); }
int ml_toupper(int c) { return c - (RNG(c, 'a', 'z') << 5); }
int ml_tolower(int c) { return c + (RNG(c, 'A', 'Z') << 5); }
/* allocation: real (ASAN-guarded) blocks; realloc always moves so that stale pointers show */
size_t ml_msize(void *);
int ml_fail_at, ml_allocs, ml_live;   /* the ml_fail_at-th allocation fails (0: none) */
static int deny(void) { ml_allocs++; return ml_fail_at && ml_allocs == ml_fail_at; }
void *ml_malloc(size_t n) { if (deny()) return 0; void *p = malloc(n); if (p) sym_clear(p, n), ml_live++; return p; }
void *ml_calloc(size_t a, size_t b) { if (deny()) return 0; void *p = calloc(a, b); if (p) sym_clear(p, a * b), ml_live++; return p; }
extern size_t malloc_usable_size(void *);
void *ml_realloc(void *p, size_t n) {
  if (!p) return ml_malloc(n);
  if (deny()) return 0;
  size_t o = malloc_usable_size(p); void *q = malloc(n ? n : 1); if (!q) return 0;
  sym_clear(q, n); ml_memcpy(q, p, o < n ? o : n); free(p); return q;
}
void *ml_reallocarray(void *p, size_t a, size_t b) { return ml_realloc(p, a * b); }
void ml_free(void *p) { if (p) ml_live--; free(p); }
static void swp(char *a, char *b, size_t n) { while (n--) { char t = *a; *a++ = *b; *b++ = t; } }
void ml_qsort(void *v, size_t n, size_t w, int (*cmp)(const void *, const void *)) { /* stable insertion sort */
  char *a = v; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(a + (j - 1) * w, a + j * w) > 0; j--) swp(a + (j - 1) * w, a + j * w, w);
}
void *ml_bsearch(const void *k, const void *v, size_t n, size_t w, int (*cmp)(const void *, const void *)) {
  size_t lo = 0, hi = n; while (lo < hi) { size_t m = (lo + hi) / 2; const char *p = (const char *)v + m * w; int c = cmp(k, p); if (!c) return (void *)p; if (c < 0) hi = m; else lo = m + 1; } return 0;
}
long ml_strtol(const char *s, char **end, int base) {
  const char *p = s; int neg = 0, any = 0; long v = 0;
  while (ml_isspace((uc)*p)) p++;
  if (*p == '-' || *p == '+') neg = *p++ == '-';
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && ml_isxdigit((uc)p[2])) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  int ovf = 0;
  for (;; p++) { int c = (uc)*p, d; if (ml_isdigit(c)) d = c - '0'; else if (ml_isalpha(c)) d = (c | 32) - 'a' + 10; else break; if (d >= base) break; any = 1;
    if (v > (LONG_MAX - d) / base) ovf = 1; else v = v * base + d; }
  if (end) *end = (char *)(any ? p : s);
  if (ovf) { ml_errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; }
  return neg ? -v : v;
}
unsigned long ml_strtoul(const char *s, char **e, int b) { return (unsigned long)ml_strtol(s, e, b); }
int ml_atoi(const char *s) { return (int)ml_strtol(s, 0, 10); }
long ml_atol(const char *s) { return ml_strtol(s, 0, 10); }
double ml_strtod(const char *s, char **e) { return (double)ml_strtol(s, e, 10); }
int ml_abs(int x) { return x < 0 ? -x : x; }
/* ---- in-memory files ---- */
#define MAXF 96
static ml_FILE files[MAXF]; static int nfiles; static ml_FILE *fds[64]; static int nfd = 3; static int tmpno;
ml_FILE *ml_stdin, *ml_stdout, *ml_stderr;
static ml_FILE *mk(const char *name) { if (nfiles >= MAXF) sym_limit_exceeded(); ml_FILE *f = &files[nfiles++]; *f = (ml_FILE){0}; f->name = name ? ml_strdup(name) : 0; return f; }
static void need(ml_FILE *f, size_t n) {
  if (n <= f->cap) return;
  if (n > (8u << 20)) sym_limit_exceeded();
  size_t c = f->cap ? f->cap : 256; while (c < n) c *= 2;
  char *d = malloc(c); sym_clear(d, c); if (f->data) { ml_memcpy(d, f->data, f->len); free(f->data); } f->data = d; f->cap = c;
}
void mf_reset(void) { nfiles = 0; nfd = 3; tmpno = 0; ml_stdin = mk("<stdin>"); ml_stdout = mk("<stdout>"); ml_stderr = mk("<stderr>"); ml_stdin->open = ml_stdout->open = ml_stderr->open = 1; ml_stdout->wr = ml_stderr->wr = 1; need(ml_stdout, 1); need(ml_stderr, 1); ml_optind = 0; ml_errno = 0; }
ml_FILE *mf_get(const char *name) { for (int i = nfiles - 1; i >= 0; i--) if (files[i].name && !ml_strcmp(files[i].name, name)) { need(&files[i], files[i].len + 1); files[i].data[files[i].len] = 0; return &files[i]; } return 0; }
void mf_put(const char *name, const char *data, size_t n) { ml_FILE *f = mf_get(name); if (!f) f = mk(name); f->len = 0; need(f, n + 1); ml_memcpy(f->data, data, n); f->len = n; f->pos = 0; }
ml_FILE *ml_fopen(const char *name, const char *m) {
  ml_FILE *f = 0; for (int i = nfiles - 1; i >= 3; i--) if (files[i].name && !ml_strcmp(files[i].name, name)) f = &files[i];
  if (m[0] == 'r') { if (!f) { ml_errno = ENOENT; return 0; } } else { if (!f) f = mk(name); if (m[0] == 'w') f->len = 0; need(f, 1); }
  if (f->open) { ml_FILE *g = mk(0); g->data = 0; if (m[0] == 'r') { need(g, f->len + 1); ml_memcpy(g->data, f->data, f->len); g->len = f->len; f = g; } }
  f->open = 1; f->pos = m[0] == 'a' ? f->len : 0; f->wr = m[0] != 'r'; f->err = f->eof = 0; return f;
}
ml_FILE *ml_freopen(const char *n, const char *m, ml_FILE *o) { (void)o; return ml_fopen(n, m); }
ml_FILE *ml_tmpfile(void) { ml_FILE *f = mk(0); need(f, 1); f->open = 1; f->wr = 1; return f; }
int ml_mkstemp(char *t) { size_t n = ml_strlen(t); if (n < 6) return -1; int k = tmpno++; for (int i = 0; i < 6; i++) t[n - 1 - i] = (char)('a' + (i == 0 ? k % 26 : i == 1 ? k / 26 % 26 : 0)); ml_FILE *f = mk(t); need(f, 1); if (nfd >= 64) sym_limit_exceeded(); fds[nfd] = f; return nfd++; }
ml_FILE *ml_fdopen(int fd, const char *m) { if (fd == 0) return ml_stdin; if (fd == 1) return ml_stdout; if (fd == 2) return ml_stderr; ml_FILE *f = fds[fd]; f->open = 1; f->wr = 1; f->pos = 0; (void)m; return f; }
static void chk(ml_FILE *f, const char *w) { if (!f) sym_fail("stdio call on a null FILE pointer"); if (!f->open) sym_fail("stdio call on a closed FILE"); (void)w; }
int ml_fclose(ml_FILE *f) { chk(f, "fclose"); f->open = 0; return 0; }
int ml_fflush(ml_FILE *f) { (void)f; return 0; }
int ml_getc(ml_FILE *f) { chk(f, "getc"); if (f->pos >= f->len) { f->eof = 1; return EOF; } return (uc)f->data[f->pos++]; }
int ml_getchar(void) { return ml_getc(ml_stdin); }
int ml_ungetc(int c, ml_FILE *f) { chk(f, "ungetc"); if (c == EOF || !f->pos) return EOF; f->eof = 0; f->data[--f->pos] = (char)c; return c; }
int ml_putc(int c, ml_FILE *f) { chk(f, "putc"); need(f, f->pos + 2); f->data[f->pos++] = (char)c; if (f->pos > f->len) f->len = f->pos; return (uc)c; }
int ml_putchar(int c) { return ml_putc(c, ml_stdout); }
int ml_fputs(const char *s, ml_FILE *f) { while (*s) ml_putc(*s++, f); return 1; }
int ml_puts(const char *s) { ml_fputs(s, ml_stdout); ml_putc('\n', ml_stdout); return 1; }
char *ml_fgets(char *b, int n, ml_FILE *f) { int i = 0; while (i < n - 1) { int c = ml_getc(f); if (c == EOF) break; b[i++] = (char)c; if (c == '\n') break; } if (i == 0) return 0; b[i] = 0; return b; }
size_t ml_fread(void *p, size_t s, size_t n, ml_FILE *f) { chk(f, "fread"); if (!s) return 0; size_t av = f->len - f->pos, k = s * n; if (k > av) { k = av / s * s; f->eof = 1; } ml_memcpy(p, f->data + f->pos, k); f->pos += k; return k / s; }
size_t ml_fwrite(const void *p, size_t s, size_t n, ml_FILE *f) { chk(f, "fwrite"); size_t k = s * n; need(f, f->pos + k + 1); ml_memcpy(f->data + f->pos, p, k); f->pos += k; if (f->pos > f->len) f->len = f->pos; return n; }
int ml_fseek(ml_FILE *f, long o, int w) { chk(f, "fseek"); long b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (long)f->pos : (long)f->len; b += o; if (b < 0 || b > (long)f->len) return -1; f->pos = (size_t)b; f->eof = 0; return 0; }
long ml_ftell(ml_FILE *f) { chk(f, "ftell"); return (long)f->pos; }
void ml_rewind(ml_FILE *f) { chk(f, "rewind"); f->pos = 0; f->eof = f->err = 0; }
int ml_feof(ml_FILE *f) { return f->eof; }
int ml_ferror(ml_FILE *f) { return f->err; }
void ml_clearerr(ml_FILE *f) { f->err = f->eof = 0; }
int ml_fgetpos(ml_FILE *f, ml_fpos *p) { p->p = (long)f->pos; return 0; }
int ml_fsetpos(ml_FILE *f, const ml_fpos *p) { f->pos = (size_t)p->p; f->eof = 0; return 0; }
int ml_access(const char *n, int m) { (void)m; for (int i = 3; i < nfiles; i++) if (files[i].name && !ml_strcmp(files[i].name, n)) return 0; return -1; }
int ml_unlink(const char *n) { for (int i = nfiles - 1; i >= 3; i--) if (files[i].name && !ml_strcmp(files[i].name, n)) { files[i].name = 0; return 0; } return -1; }
int ml_rename(const char *a, const char *b) { (void)a; (void)b; return -1; }
int ml_chmod(const char *n, unsigned m) { (void)n; (void)m; return 0; }
unsigned ml_umask(unsigned m) { (void)m; return 022; }
char *ml_getenv(const char *n) { (void)n; return 0; }
void ml_exit(int c) { sym_exit(c); }
void ml_abort(void) { sym_fail("abort() called"); }
void ml_assert_fail(const char *e, const char *f, unsigned l) { char b[300]; const char *s = f; for (const char *q = f; *q; q++) if (*q == '/') s = q + 1; ml_snprintf(b, sizeof b, "assertion failed: %s (%s)", e, s); (void)l; sym_fail(b); }
void (*ml_signal(int s, void (*h)(int)))(int) { (void)s; (void)h; return 0; }
int ml_atexit(void (*f)(void)) { (void)f; return 0; }
int ml_system(const char *c) { (void)c; return -1; }
void ml_perror(const char *s) { (void)s; }
/* ---- formatted output ---- */
struct sink { ml_FILE *f; char *b; size_t n, cap; };
static void out(struct sink *s, char c) { if (s->f) ml_putc(c, s->f); else if (s->n + 1 < s->cap) s->b[s->n] = c; s->n++; }
static void pad(struct sink *s, int k, char c) { while (k-- > 0) out(s, c); }
static int fmt(struct sink *s, const char *f, va_list ap) {
  for (; *f; f++) {
    if (*f != '%') { out(s, *f); continue; }
    f++; int left = 0, zero = 0, plus = 0, sp = 0, alt = 0, w = 0, prec = -1, lng = 0;
    for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ') sp = 1; else if (*f == '#') alt = 1; else break; }
    if (*f == '*') { w = va_arg(ap, int); if (w < 0) { left = 1; w = -w; } f++; } else while (RNG(*f, '0', '9')) w = w * 10 + *f++ - '0';
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (RNG(*f, '0', '9')) prec = prec * 10 + *f++ - '0'; }
    while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j' || *f == 't') { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng++; else lng--; f++; }
    char tmp[72]; int n = 0; 
    switch (*f) {
      case '%': out(s, '%'); break;
      case 'c': { char c = (char)va_arg(ap, int); if (!left) pad(s, w - 1, ' '); out(s, c); if (left) pad(s, w - 1, ' '); break; }
      case 's': { const char *p = va_arg(ap, const char *); if (!p) p = "(null)"; int k = 0; while ((prec < 0 || k < prec) && p[k]) k++; if (!left) pad(s, w - k, ' '); for (int i = 0; i < k; i++) out(s, p[i]); if (left) pad(s, w - k, ' '); break; }
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
        unsigned long v; int neg = 0; unsigned base = 10;
        if (*f == 'p') { v = (unsigned long)va_arg(ap, void *); base = 16; alt = 1; }
        else if (*f == 'd' || *f == 'i') { long x = lng > 0 ? va_arg(ap, long) : va_arg(ap, int); if (lng == -1) x = (short)x; else if (lng == -2) x = (signed char)x; neg = x < 0; v = neg ? 0ul - (unsigned long)x : (unsigned long)x; }
        else { v = lng > 0 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if (lng == -1) v = (unsigned short)v; else if (lng == -2) v = (uc)v; if (*f != 'u') base = *f == 'o' ? 8 : 16; }
        int isz = v == 0;
        do { unsigned d = (unsigned)(v % base); tmp[n++] = (char)(d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10); v /= base; } while (v);
        if (prec == 0 && isz) n = 0;
        while (n < prec && n < 60) tmp[n++] = '0';
        char pre[3]; int np = 0; if (neg) pre[np++] = '-'; else if (plus) pre[np++] = '+'; else if (sp) pre[np++] = ' ';
        if (alt && base == 16 && !isz) { pre[np++] = '0'; pre[np++] = *f == 'X' ? 'X' : 'x'; } 
        if (alt && base == 8 && (!n || tmp[n - 1] != '0')) tmp[n++] = '0';
        int k = n + np;
        if (!left && !(zero && prec < 0)) pad(s, w - k, ' ');
        for (int i = 0; i < np; i++) out(s, pre[i]);
        if (!left && zero && prec < 0) pad(s, w - k, '0');
        while (n) out(s, tmp[--n]);
        if (left) pad(s, w - k, ' ');
        break; }
      case 'f': case 'g': case 'e': { double d = va_arg(ap, double); long x = (long)d; struct sink t = *s; (void)t; char b[32]; int q = ml_snprintf(b, sizeof b, "%ld", x); for (int i = 0; i < q; i++) out(s, b[i]); break; }
      default: sym_fail("unsupported printf conversion");
    }
  }
  return (int)s->n;
}
int ml_vfprintf(ml_FILE *f, const char *m, va_list ap) { chk(f, "fprintf"); struct sink s = {f, 0, 0, 0}; return fmt(&s, m, ap); }
int ml_vsnprintf(char *b, size_t n, const char *m, va_list ap) { struct sink s = {0, b, 0, n}; int k = fmt(&s, m, ap); if (n) b[s.n < n ? s.n : n - 1] = 0; return k; }
int ml_vsprintf(char *b, const char *m, va_list ap) { return ml_vsnprintf(b, (size_t)1 << 30, m, ap); }
int ml_vprintf(const char *m, va_list ap) { return ml_vfprintf(ml_stdout, m, ap); }
int ml_printf(const char *m, ...) { va_list ap; va_start(ap, m); int r = ml_vfprintf(ml_stdout, m, ap); va_end(ap); return r; }
int ml_fprintf(ml_FILE *f, const char *m, ...) { va_list ap; va_start(ap, m); int r = ml_vfprintf(f, m, ap); va_end(ap); return r; }
int ml_sprintf(char *b, const char *m, ...) { va_list ap; va_start(ap, m); int r = ml_vsprintf(b, m, ap); va_end(ap); return r; }
int ml_snprintf(char *b, size_t n, const char *m, ...) { va_list ap; va_start(ap, m); int r = ml_vsnprintf(b, n, m, ap); va_end(ap); return r; }
/* ---- getopt ---- */
char *ml_optarg; int ml_optind = 1, ml_opterr = 1, ml_optopt; static int gp;
int ml_getopt(int argc, char *const *argv, const char *os) {
  if (ml_optind == 0) { ml_optind = 1; gp = 0; }
  ml_optarg = 0;
  if (!gp) { if (ml_optind >= argc || argv[ml_optind][0] != '-' || !argv[ml_optind][1]) return -1; if (argv[ml_optind][1] == '-' && !argv[ml_optind][2]) { ml_optind++; return -1; } gp = 1; }
  char c = argv[ml_optind][gp++]; const char *o = os; while (*o && *o != c) o++;
  int more = argv[ml_optind][gp] != 0;
  if (!*o || c == ':') { ml_optopt = c; if (!more) { ml_optind++; gp = 0; } return '?'; }
  if (o[1] == ':') { if (more) ml_optarg = argv[ml_optind] + gp; else { ml_optind++; if (ml_optind >= argc) { gp = 0; ml_optopt = c; return '?'; } ml_optarg = argv[ml_optind]; } ml_optind++; gp = 0; return c; }
  if (!more) { ml_optind++; gp = 0; }
  return c;
}
