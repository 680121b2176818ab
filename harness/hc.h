/* Helpers shared by the harnesses: text building, running the tools on in-memory files, decoding
 * what they wrote, and an independent LALR(1) construction to compare with. */
#ifndef HC_H
#define HC_H
#include "ml.h"
typedef struct { char b[65536]; int n; } txt;
static void t_c(txt *t, int c) { if (t->n + 1 >= (int)sizeof t->b) sym_limit_exceeded(); t->b[t->n++] = (char)c; t->b[t->n] = 0; }
static void t_s(txt *t, const char *s) { while (*s) t_c(t, *s++); }
static void t_d(txt *t, int v) { char b[16]; sprintf(b, "%d", v); t_s(t, b); }
/* a note in hexadecimal, written without branching on the bytes */
static void note_hex(const char *b, int n) { static char nb[1400]; int k = 0; for (int i = 0; i < n && k < 1390; i++) { unsigned c = (unsigned char)b[i], h = c >> 4, l = c & 15; nb[k++] = (char)('0' + h + ((9 - h) >> 31) * 39); nb[k++] = (char)('0' + l + ((9 - l) >> 31) * 39); } nb[k] = 0; sym_note(nb); }
static int P(const char *name, int dflt) { const char *v = sym_param(name); return v ? atoi(v) : dflt; }
static void failf(const char *f, ...) { static char b[1500]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); sym_fail(b); }
/* ---- running a tool: argv as a blank separated string ---- */
typedef int (*tool_main)(int, char **);
struct run_ { tool_main m; int argc; char *argv[40]; int ret; };
static void run_go(void *a) { struct run_ *r = a; r->ret = r->m(r->argc, r->argv); }
/* exit status of the tool (return value of main, or the argument of exit) */
static int run_tool(tool_main m, const char *args) {
  struct run_ *r = calloc(1, sizeof *r); r->m = m; char *s = strdup(args);
  optind = 0;
  while (*s) { while (*s == ' ') s++; if (!*s) break; if (r->argc >= 38) sym_limit_exceeded(); r->argv[r->argc++] = s; while (*s && *s != ' ') s++; if (*s) *s++ = 0; }
  r->argv[r->argc] = 0;
  int k = sym_run(run_go, r);
  return k ? k - 1 : r->ret;
}
#ifndef NO_YACC
int yacc_main(int, char **) __attribute__((weak)); int btyacc_main(int, char **) __attribute__((weak));
#endif
#ifndef NO_LEMON
int lemon_main(int, char **) __attribute__((weak));
#endif
static const char *fdata(const char *name) { FILE *f = mf_get(name); return f ? f->data : 0; }
/* does the output contain this text?  (outputs may contain NUL bytes) */
static int fhas(const char *name, const char *w) { FILE *f = mf_get(name); if (!f) return 0; int n = (int)strlen(w), m = (int)f->len;
  for (int i = 0; i + n <= m; i++) { int k = 0; while (k < n && f->data[i + k] == w[k]) k++; if (k == n) return 1; } return 0; }
/* ---- decoding integer tables in generated C ---- */
static const char *find_arr(const char *s, const char *name) {
  int n = (int)strlen(name);
  for (const char *p = s; (p = strstr(p, name)); p += n) {
    if (p > s && (isalnum((unsigned char)p[-1]) || p[-1] == '_')) continue;
    const char *q = p + n; while (*q == ' ') q++;
    if (*q != '[') continue;
    while (*q && *q != ']') q++; if (*q) q++; while (*q == ' ' || *q == '\n') q++;
    if (*q != '=') continue;
    q++; while (*q == ' ' || *q == '\n') q++;
    if (*q == '{') return q + 1;
  }
  return 0;
}
static int get_ints(const char *s, const char *name, int *out, int max) {
  const char *p = find_arr(s, name); int n = 0; if (!p) return -1;
  for (;;) {
    while (*p == ' ' || *p == '\n' || *p == ',' || *p == '\t') p++;
    if (p[0] == '/' && p[1] == '*') { p += 2; while (*p && !(p[0] == '*' && p[1] == '/')) p++; if (*p) p += 2; continue; }
    if (p[0] == '/' && p[1] == '/') { while (*p && *p != '\n') p++; continue; }
    if (*p == '}' || !*p) return n;
    if (*p == '-' || isdigit((unsigned char)*p)) { char *e; long v = strtol(p, &e, 10); p = e; if (n >= max) sym_limit_exceeded(); out[n++] = (int)v; continue; }
    while (*p && *p != ',' && *p != '}' && *p != '\n') p++;
    if (n >= max) sym_limit_exceeded(); out[n++] = -999999; 
  }
}
/* value of "#define NAME number" */
static int get_def(const char *s, const char *name, int dflt) {
  int n = (int)strlen(name);
  for (const char *p = s; (p = strstr(p, "#define ")); ) { p += 8; while (*p == ' ') p++; if (!strncmp(p, name, n) && (p[n] == ' ' || p[n] == '\t')) { p += n; while (*p == ' ' || *p == '(' || *p == '\t') p++; if (*p == '-' || isdigit((unsigned char)*p)) return atoi(p); } }
  return dflt;
}
/* ---- grammars and the reference construction ---- */
#ifdef HC_BIG
enum { MAXR = 400, MAXL = 8, MAXT = 120, MAXN = 210, MAXS = 1500, MAXI = 400 };
typedef unsigned __int128 lset;
#else
enum { MAXR = 40, MAXL = 8, MAXT = 20, MAXN = 20, MAXS = 160, MAXI = 64 };
typedef unsigned lset;
#endif
#define L1(t) ((lset)1 << (t))
enum { A_NONE = 0, A_LEFT, A_RIGHT, A_NONASSOC, A_PREC };
typedef struct {
  int nt, nn, nr;                 /* terminals 0..nt-1 (0 = $end), nonterminals 0..nn-1 encoded as 1000+i; rule 0 = accept: start */
  struct { int lhs, len, rhs[MAXL], prec, assoc; } r[MAXR];
  int tprec[MAXT], tassoc[MAXT];
  int start, rrprec;              /* rrprec: reduce/reduce conflicts are decided by rule precedence too */
  int back;                       /* -B: conflicts are kept for backtracking */
} gram;
#define NT(i) (1000 + (i))
#define ISN(x) ((x) >= 1000)
typedef struct { int rule, dot; lset la; } lritem;
typedef struct { int nk, n; lritem it[MAXI]; int gt[MAXT], gn[MAXN]; } lrstate;
typedef struct { lrstate s[MAXS]; int n; lset first[MAXN]; char nullable[MAXN]; int head[MAXN], next[MAXR]; } lr;
static void g_init(gram *g, int nt, int nn, int start) { memset(g, 0, sizeof *g); g->nt = nt; g->nn = nn; g->start = start; g->nr = 1; g->r[0].lhs = -1; g->r[0].len = 1; g->r[0].rhs[0] = NT(start); }
static int g_rule(gram *g, int lhs) { if (g->nr >= MAXR) sym_limit_exceeded(); g->r[g->nr].lhs = lhs; g->r[g->nr].len = 0; return g->nr++; }
static void g_sym(gram *g, int r, int s) { if (g->r[r].len >= MAXL) sym_limit_exceeded(); g->r[r].rhs[g->r[r].len++] = s; }
static void lr_first(gram *g, lr *m) {
  memset(m->first, 0, sizeof m->first); memset(m->nullable, 0, sizeof m->nullable);
  for (int ch = 1; ch;) { ch = 0;
    for (int r = 1; r < g->nr; r++) { int A = g->r[r].lhs, i; lset f = m->first[A];
      for (i = 0; i < g->r[r].len; i++) { int X = g->r[r].rhs[i]; if (ISN(X)) { f |= m->first[X - 1000]; if (!m->nullable[X - 1000]) break; } else { f |= L1(X); break; } }
      if (f != m->first[A]) { m->first[A] = f; ch = 1; }
      if (i == g->r[r].len && !m->nullable[A]) { m->nullable[A] = 1; ch = 1; } } }
}
static lset first_of(gram *g, lr *m, int r, int i, lset la) {
  lset f = 0;
  for (; i < g->r[r].len; i++) { int X = g->r[r].rhs[i]; if (!ISN(X)) return f | L1(X); f |= m->first[X - 1000]; if (!m->nullable[X - 1000]) return f; }
  return f | la;
}
static void closure_(gram *g, lr *m, lrstate *s) {
  int at[MAXR]; for (int r = 0; r < g->nr; r++) at[r] = -1; for (int i = 0; i < s->n; i++) if (s->it[i].dot == 0) at[s->it[i].rule] = i;
  for (int ch = 1; ch;) { ch = 0;
    for (int i = 0; i < s->n; i++) { lritem it = s->it[i]; if (it.dot >= g->r[it.rule].len) continue; int X = g->r[it.rule].rhs[it.dot]; if (!ISN(X)) continue;
      lset la = first_of(g, m, it.rule, it.dot + 1, it.la);
      for (int r = m->head[X - 1000]; r; r = m->next[r]) { int j = at[r];
        if (j < 0) { if (s->n >= MAXI) sym_limit_exceeded(); at[r] = j = s->n; s->it[s->n++] = (lritem){r, 0, 0}; ch = 1; }
        if (la & ~s->it[j].la) { s->it[j].la |= la; if (j <= i) ch = 1; } } } }
}
/* LALR(1): states are LR(0) cores; lookaheads are propagated until nothing changes */
static lr *lr_build(gram *g) {
  lr *m = calloc(1, sizeof *m); lr_first(g, m);
  for (int r = g->nr - 1; r > 0; r--) { int A = g->r[r].lhs; m->next[r] = m->head[A]; m->head[A] = r; }
  m->n = 1; m->s[0].nk = m->s[0].n = 1; m->s[0].it[0] = (lritem){0, 0, 1u}; closure_(g, m, &m->s[0]);
  for (int i = 0; i < MAXT; i++) m->s[0].gt[i] = -1; for (int i = 0; i < MAXN; i++) m->s[0].gn[i] = -1;
  for (int ch = 1; ch;) { ch = 0;
    for (int si = 0; si < m->n; si++) {
      lrstate *s = &m->s[si]; char has[MAXT + MAXN] = {0};
      for (int i = 0; i < s->n; i++) { lritem it = s->it[i]; if (it.dot < g->r[it.rule].len) { int X = g->r[it.rule].rhs[it.dot]; has[ISN(X) ? g->nt + X - 1000 : X] = 1; } }
      for (int x = 0; x < g->nt + g->nn; x++) { int X = x < g->nt ? x : NT(x - g->nt); if (!has[x]) continue;
        lrstate k; k.nk = 0;
        for (int i = 0; i < s->n; i++) { lritem it = s->it[i]; if (it.dot < g->r[it.rule].len && g->r[it.rule].rhs[it.dot] == X) k.it[k.nk++] = (lritem){it.rule, it.dot + 1, it.la}; }
        if (!k.nk) continue;
        int t; for (t = 0; t < m->n; t++) { lrstate *q = &m->s[t]; if (q->nk != k.nk) continue; int ok = 1; for (int i = 0; i < k.nk && ok; i++) { int f = 0; for (int j = 0; j < q->nk; j++) if (q->it[j].rule == k.it[i].rule && q->it[j].dot == k.it[i].dot) f = 1; ok = f; } if (ok) break; }
        if (t == m->n) { if (t >= MAXS) sym_limit_exceeded(); m->n++; lrstate *q = &m->s[t]; q->nk = q->n = k.nk; for (int i = 0; i < k.nk; i++) q->it[i] = k.it[i]; for (int i = 0; i < MAXT; i++) q->gt[i] = -1; for (int i = 0; i < MAXN; i++) q->gn[i] = -1; closure_(g, m, q); ch = 1; }
        else { lrstate *q = &m->s[t]; int up = 0; for (int i = 0; i < k.nk; i++) for (int j = 0; j < q->nk; j++) if (q->it[j].rule == k.it[i].rule && q->it[j].dot == k.it[i].dot && (k.it[i].la & ~q->it[j].la)) { q->it[j].la |= k.it[i].la; up = 1; } if (up) { closure_(g, m, q); ch = 1; } }
        if (x < g->nt) s->gt[x] = t; else s->gn[x - g->nt] = t;
      } } }
  return m;
}
/* does every nonterminal derive some sentence? */
static int g_productive(gram *g) {
  char p[MAXN] = {0}; for (int ch = 1; ch;) { ch = 0; for (int r = 1; r < g->nr; r++) if (!p[g->r[r].lhs]) { int ok = 1; for (int i = 0; i < g->r[r].len; i++) if (ISN(g->r[r].rhs[i]) && !p[g->r[r].rhs[i] - 1000]) ok = 0; if (ok) p[g->r[r].lhs] = 1, ch = 1; } }
  for (int i = 0; i < g->nn; i++) if (!p[i]) return 0; return 1;
}
/* action of state s on terminal t after yacc's conflict resolution.
 * kind: 0 error, 1 shift(v), 2 reduce(v), 3 accept, 4 error because of %nonassoc, 5 unspecified */
typedef struct { int kind, v, sr, rr; } act;
static act lr_action(gram *g, lr *m, int si, int t) {
  lrstate *s = &m->s[si]; act a = {0, 0, 0, 0}; int red[MAXI], nr = 0, accept = 0;
  for (int i = 0; i < s->n; i++) { lritem it = s->it[i]; if (it.dot == g->r[it.rule].len && (it.la >> t & 1)) { if (it.rule == 0) accept = 1; else red[nr++] = it.rule; } }
  for (int i = 0; i < nr; i++) for (int j = i + 1; j < nr; j++) if (red[j] < red[i]) { int x = red[i]; red[i] = red[j]; red[j] = x; }
  if (accept) { a.kind = 3; a.sr = nr; return a; }   /* byacc counts these as shift/reduce */
  int dead = 0;
  if (s->gt[t] >= 0) { a.kind = 1; a.v = s->gt[t]; }
  for (int i = 0; i < nr; i++) { int r = red[i];
    if (dead) { a.kind = 5; break; }
    if (a.kind == 0) { a.kind = 2; a.v = r; }
    else if (a.kind == 2) {
      int p = g->r[a.v].prec, q = g->r[r].prec;
      if (g->rrprec && p > 0 && q > 0 && p != q) { if (p < q) a.v = r; } else a.rr++;
    } else if (g->tprec[t] > 0 && g->r[r].prec > 0) {
      if (g->tprec[t] < g->r[r].prec) { a.kind = 2; a.v = r; }
      else if (g->tprec[t] > g->r[r].prec) ;
      else if (g->tassoc[t] == A_LEFT) { a.kind = 2; a.v = r; }
      else if (g->tassoc[t] == A_RIGHT) ;
      else { a.kind = 4; dead = 1; }
    } else a.sr++;
  }
  return a;
}
/* the totals byacc writes to stderr (the first line that mentions conflicts) */
static void y_conflicts(const char *err, int *sr, int *rr) {
  static char b[200]; *sr = *rr = 0; const char *l = err; 
  for (; l && *l; l = strchr(l, '\n') ? strchr(l, '\n') + 1 : 0) {
    int n = 0; while (l[n] && l[n] != '\n' && n < 199) { b[n] = l[n]; n++; } b[n] = 0;
    if (strstr(b, "expected") || !strstr(b, "/reduce conflict")) continue;
    char *p; if ((p = strstr(b, " shift/reduce conflict"))) { while (p > b && isdigit((unsigned char)p[-1])) p--; *sr = atoi(p); }
    if ((p = strstr(b, " reduce/reduce conflict"))) { while (p > b && isdigit((unsigned char)p[-1])) p--; *rr = atoi(p); }
    return;
  }
}
/* byacc's messages and exit status against the reference: conflict totals, expectations, rules never reduced */
static void y_counts(gram *g, lr *m, const char *err, int rc, int nsr, int nrr) {
  int sr = 0, rr = 0, uns = 0, gs, gr, never = 0, said = 0; static char used[MAXR]; memset(used, 0, sizeof used);
  for (int s = 0; s < m->n; s++) for (int u = 0; u < g->nt; u++) { act a = lr_action(g, m, s, u); sr += a.sr; rr += a.rr; if (a.kind == 5) uns = 1; if (a.kind == 2) used[a.v] = 1; }
  if (uns) return;      /* several reductions against a nonassociative token: not specified */
  y_conflicts(err, &gs, &gr);
  if (gs != sr || gr != rr) failf("reported: %d shift/reduce, %d reduce/reduce conflicts; the grammar has %d and %d", gs, gr, sr, rr);
  if (sr + rr) { int bad = (nsr >= 0 && nsr != sr) || (nrr >= 0 && nrr != rr); if (bad != (rc != 0)) failf("exit status %d with %%expect %d, %%expect-rr %d and %d/%d conflicts", rc, nsr, nrr, sr, rr); }
  else if (!(nsr > 0 || nrr > 0) && rc) failf("exit status %d on a grammar without conflicts", rc);
  for (int r = 1; r < g->nr; r++) if (!used[r]) never++;
  const char *p = strstr(err, " never reduced"); if (p) { while (p > err && p[-1] != ' ') p--; p--; while (p > err && isdigit((unsigned char)p[-1])) p--; said = atoi(p); }
  if (said != never) failf("%d rules are said never to be reduced, there are %d", said, never);
}
/* ---- byacc tables ---- */
#ifdef HC_BIG
enum { YT = 16384 };
#else
enum { YT = 4096 };
#endif
typedef struct { int lhs[YT], nlhs, len[YT], nlen, defred[YT], ndefred, dgoto[YT], ndgoto, sindex[YT], nsindex, rindex[YT], nrindex, gindex[YT], ngindex, table[YT], ntable, check[YT], ncheck, cindex[YT], ncindex, ctable[YT], nctable, tablesize, final_, maxtoken; } ytab;
static ytab *yt_read(const char *c) {
  ytab *y = calloc(1, sizeof *y);
#define RD(f, n) y->n##f = get_ints(c, "yy" #f, y->f, YT); if (y->n##f < 0) failf("the generated file has no table yy" #f)
  RD(lhs, n); RD(len, n); RD(defred, n); RD(dgoto, n); RD(sindex, n); RD(rindex, n); RD(gindex, n); RD(table, n); RD(check, n);
#undef RD
  y->ncindex = get_ints(c, "yycindex", y->cindex, YT); y->nctable = get_ints(c, "yyctable", y->ctable, YT);
  y->tablesize = get_def(c, "YYTABLESIZE", -1); y->final_ = get_def(c, "YYFINAL", -1); y->maxtoken = get_def(c, "YYMAXTOKEN", -1);
  if (y->tablesize < 0 || y->final_ < 0) failf("YYTABLESIZE or YYFINAL is not defined");
  if (y->ntable <= y->tablesize && 0) failf("x");
  return y;
}
static int yt_look(ytab *y, int *idx, int nidx, int st, int tok) { /* table index or -1 */
  if (st < 0 || st >= nidx) failf("state %d outside the index table of %d entries", st, nidx);
  int n = idx[st]; if (!n) return -1; n += tok;
  if (n < 0 || n > y->tablesize) return -1;
  if (n >= y->ncheck || n >= y->ntable) failf("table index %d is within YYTABLESIZE=%d but outside the emitted arrays", n, y->tablesize);
  return y->check[n] == tok ? n : -1;
}
/* 0 error, 1 shift v, 2 reduce v (v: index in yylhs), deflt set when by yydefred */
static act yt_action(ytab *y, int st, int tok, int *deflt) {
  act a = {0, 0, 0, 0}; *deflt = 0; int i;
  if (st >= y->ndefred) failf("state %d outside yydefred", st);
  if (y->defred[st]) { a.kind = 2; a.v = y->defred[st]; *deflt = 1; return a; }
  if ((i = yt_look(y, y->sindex, y->nsindex, st, tok)) >= 0) { a.kind = 1; a.v = y->table[i]; return a; }
  if ((i = yt_look(y, y->rindex, y->nrindex, st, tok)) >= 0) { a.kind = 2; a.v = y->table[i]; return a; }
  return a;
}
static int yt_goto(ytab *y, int st, int nt) { /* nt: yylhs value */
  if (nt >= y->ngindex || nt >= y->ndgoto) failf("nonterminal %d outside the goto tables", nt);
  int n = y->gindex[nt]; if (n) { n += st; if (n >= 0 && n <= y->tablesize) { if (n >= y->ncheck) failf("goto index outside yycheck"); if (y->check[n] == st) return y->table[n]; } }
  return y->dgoto[nt];
}
/* Compare decoded tables with the reference automaton.  tok[t] = token number of terminal t,
 * nts[i] = byacc's number of nonterminal i.  strict_nonassoc: an error entry made by %nonassoc must stay an error. */
static int lost_nonassoc;
/* -B, without precedences: every action of a conflict is a trial, the shift first, then the reductions in rule order */
static void yt_alternatives(gram *g, lr *m, ytab *y, int s, int q, int t, int tok, int *map, int *todo, int *nt) {
  lrstate *S = &m->s[s]; int d; act b = yt_action(y, q, tok, &d); if (b.kind) failf("state %d on token %d: a conflict is expected, the table has %s %d", q, tok, b.kind == 1 ? "shift" : "reduce", b.v);
  int i = yt_look(y, y->cindex, y->ncindex, q, tok); if (i < 0) failf("state %d on token %d: a conflict is expected, the table has none", q, tok);
  int k = y->table[i]; if (k < 0 || k >= y->nctable) failf("state %d on token %d: conflict index %d is outside yyctable", q, tok, k);
  int T = S->gt[t];
  if (T < 0) { if (y->ctable[k] != -1) failf("state %d on token %d: the conflict has no shift, the table has %d", q, tok, y->ctable[k]); }
  else if (y->ctable[k] < 0) failf("state %d on token %d: the conflict has a shift, the table has none", q, tok);
  else if (map[T] < 0) { map[T] = y->ctable[k]; todo[(*nt)++] = T; } else if (map[T] != y->ctable[k]) failf("state %d on token %d: trial shift to %d expected, the table has %d", q, tok, map[T], y->ctable[k]);
  k++;
  for (int r = 1; r < g->nr; r++) { int has = 0; for (int j = 0; j < S->n; j++) if (S->it[j].rule == r && S->it[j].dot == g->r[r].len && (S->it[j].la >> t & 1)) has = 1; if (!has) continue;
    if (k >= y->nctable || y->ctable[k] != r) failf("state %d on token %d: trial reduction %d expected, the table has %d", q, tok, r, k < y->nctable ? y->ctable[k] : -9); k++; }
  if (k >= y->nctable || y->ctable[k] != -1) failf("state %d on token %d: the conflict has another alternative, %d", q, tok, k < y->nctable ? y->ctable[k] : -9);
}
static void yt_compare(gram *g, lr *m, ytab *y, const int *tok, const int *nts, int strict_nonassoc) {
  int map[MAXS], todo[MAXS], nt = 0; for (int i = 0; i < MAXS; i++) map[i] = -1;
  map[0] = 0; todo[nt++] = 0;
  for (int k = 0; k < nt; k++) {
    int s = todo[k], q = map[s]; lrstate *S = &m->s[s];
    int isfinal = S->nk > 0 && 0; for (int i = 0; i < S->n; i++) if (S->it[i].rule == 0 && S->it[i].dot == 1) isfinal = 1;
    if (isfinal && q != y->final_) failf("YYFINAL is %d, the goal's state is %d", y->final_, q);
    for (int t = 0; t < g->nt; t++) {
      act a = lr_action(g, m, s, t); int d; act b = yt_action(y, q, tok[t], &d);
      if (a.kind == 5) continue;
      if (g->back && a.kind != 3 && a.sr + a.rr) { yt_alternatives(g, m, y, s, q, t, tok[t], map, todo, &nt); continue; }
      if (g->back && a.kind != 3 && yt_look(y, y->cindex, y->ncindex, q, tok[t]) >= 0) failf("state %d on token %d: there is no conflict, but the table has one", q, tok[t]);
      if (a.kind == 3) { /* accept is taken by the parser itself in YYFINAL */ continue; }
      if (a.kind == 1) {
        if (b.kind != 1) failf("state %d on token %d: shift expected, the table has %s %d", q, tok[t], b.kind == 2 ? "reduce" : "error", b.v);
        if (map[a.v] < 0) { map[a.v] = b.v; todo[nt++] = a.v; } else if (map[a.v] != b.v) failf("state %d on token %d: shift to %d expected, the table has %d", q, tok[t], map[a.v], b.v);
      } else if (a.kind == 2) {
        if (b.kind != 2) failf("state %d on token %d: reduce %d expected, the table has %s %d", q, tok[t], a.v, b.kind == 1 ? "shift" : "error", b.v);
        if (b.v != a.v) failf("state %d on token %d: reduce %d expected, the table has reduce %d", q, tok[t], a.v, b.v);
      } else { /* error */
        if (b.kind == 1) failf("state %d on token %d: error expected, the table has shift %d", q, tok[t], b.v);
        if (b.kind == 2 && !d) failf("state %d on token %d: error expected, the table has reduce %d", q, tok[t], b.v);
        if (b.kind == 2) {
          if (a.kind == 4) lost_nonassoc = 1;
          /* a default reduction: it has to be the only thing the state does */
          int any = 0;
          for (int u = 0; u < g->nt; u++) { act c = lr_action(g, m, s, u); if (c.kind == 1) failf("state %d has default reduction %d beside a shift", q, b.v); if (c.kind == 2) { any = 1; if (c.v != b.v) failf("state %d has default reduction %d beside reduction %d", q, b.v, c.v); } }
          if (!any) failf("state %d reduces rule %d by default, which it never may", q, b.v);
        }
      }
    }
    for (int i = 0; i < g->nn; i++) if (S->gn[i] >= 0) {
      if (s == 0 && i == g->start) { int f = S->gn[i]; if (map[f] < 0) { map[f] = y->final_; todo[nt++] = f; } else if (map[f] != y->final_) failf("YYFINAL disagrees"); }
      int v = yt_goto(y, q, nts[i]), w = S->gn[i];
      if (s == 0 && i == g->start) continue;   /* the parser goes to YYFINAL itself */
      if (map[w] < 0) { map[w] = v; todo[nt++] = w; } else if (map[w] != v) failf("state %d goto on nonterminal %d: %d expected, the table has %d", q, nts[i], map[w], v);
    }
  }
  for (int r = 1; r < g->nr; r++) {
    if (r >= y->nlhs || r >= y->nlen) failf("rule %d is missing from yylhs/yylen", r);
    if (y->lhs[r] != nts[g->r[r].lhs]) failf("yylhs[%d] is %d, expected %d", r, y->lhs[r], nts[g->r[r].lhs]);
    if (y->len[r] != g->r[r].len) failf("yylen[%d] is %d, expected %d", r, y->len[r], g->r[r].len);
  }
  if (lost_nonassoc && strict_nonassoc) { failf("~%%nonassoc makes a token an error in a state, but the state's default reduction is taken instead"); }
}
#endif
