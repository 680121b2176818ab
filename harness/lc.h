/* Decoding of the parsers lemon writes, and lemon's LALR(1) semantics as a reference. */
#ifndef LC_H
#define LC_H
#include "hc.h"
#ifdef HC_BIG
enum { NSY = 512, NRU = 512 };
#else
enum { NSY = 64, NRU = 128 };
#endif
typedef struct {
  int action[YT], naction, look[YT], nlook, shofst[YT], nshofst, rdofst[YT], nrdofst, dflt[YT], ndflt, rlhs[YT], nrlhs, rlen[YT], nrlen, fb[YT], nfb;
  int nstate, nrule, nra, ntoken, maxshift, minsr, maxsr, err, acc, noact, minred, maxred, nocode, wild, errsym, shcount, rdcount, actcount;
  char sym[NSY][40]; int nsym; char rule[NRU][120]; int nrn;
} ltab;
/* body of "name[] = {" as a list of strings */
static int get_strs(const char *s, const char *name, char *out, int w, int max) {
  const char *p = find_arr(s, name); int n = 0; if (!p) return -1;
  for (;;) {
    while (*p == ' ' || *p == '\n' || *p == ',') p++;
    if (p[0] == '/' && p[1] == '*') { p += 2; while (*p && !(p[0] == '*' && p[1] == '/')) p++; if (*p) p += 2; continue; }
    if (*p != '"') return n;
    p++; int k = 0; if (n >= max) sym_limit_exceeded(); char *o = out + n * w;
    while (*p && *p != '"') { if (*p == '\\' && p[1]) p++; if (k + 1 >= w) sym_limit_exceeded(); o[k++] = *p++; }
    o[k] = 0; n++; if (*p) p++;
  }
}
static ltab *lt_read(const char *c) {
  ltab *y = calloc(1, sizeof *y);
#define RD(f, a) y->n##f = get_ints(c, a, y->f, YT); if (y->n##f < 0) failf("the generated file has no table %s", a)
  RD(action, "yy_action"); RD(look, "yy_lookahead"); RD(shofst, "yy_shift_ofst"); RD(rdofst, "yy_reduce_ofst"); RD(dflt, "yy_default"); RD(rlhs, "yyRuleInfoLhs"); RD(rlen, "yyRuleInfoNRhs");
#undef RD
  y->nfb = get_ints(c, "yyFallback", y->fb, YT);
  y->nstate = get_def(c, "YYNSTATE", -1); y->nrule = get_def(c, "YYNRULE", -1); y->nra = get_def(c, "YYNRULE_WITH_ACTION", -1); y->ntoken = get_def(c, "YYNTOKEN", -1);
  y->maxshift = get_def(c, "YY_MAX_SHIFT", -1); y->minsr = get_def(c, "YY_MIN_SHIFTREDUCE", -1); y->maxsr = get_def(c, "YY_MAX_SHIFTREDUCE", -1);
  y->err = get_def(c, "YY_ERROR_ACTION", -1); y->acc = get_def(c, "YY_ACCEPT_ACTION", -1); y->noact = get_def(c, "YY_NO_ACTION", -1); y->minred = get_def(c, "YY_MIN_REDUCE", -1); y->maxred = get_def(c, "YY_MAX_REDUCE", -1);
  y->nocode = get_def(c, "YYNOCODE", -1); y->wild = get_def(c, "YYWILDCARD", 0); y->errsym = get_def(c, "YYERRORSYMBOL", -1);
  y->shcount = get_def(c, "YY_SHIFT_COUNT", -1); y->rdcount = get_def(c, "YY_REDUCE_COUNT", -2); y->actcount = get_def(c, "YY_ACTTAB_COUNT", -1);
  if (y->nstate < 0 || y->maxshift != y->nstate - 1 || y->maxred < 0) failf("control definitions missing");
  if (y->minsr <= y->maxshift || y->maxsr - y->minsr != y->nrule - 1 || y->err <= y->maxsr || y->acc <= y->maxsr || y->noact <= y->maxsr || y->maxred - y->minred != y->nrule - 1 || y->minred <= y->err || y->minred <= y->acc || y->minred <= y->noact || y->err == y->acc || y->err == y->noact || y->acc == y->noact) failf("the action number ranges overlap");
  y->nsym = get_strs(c, "yyTokenName", y->sym[0], 40, NSY); y->nrn = get_strs(c, "yyRuleName", y->rule[0], 120, NRU);
  if (y->nsym < 0 || y->nrn != y->nrule || y->nrlhs != y->nrule || y->nrlen != y->nrule) failf("%d rules, but %d names, %d left-hand sides, %d lengths", y->nrule, y->nrn, y->nrlhs, y->nrlen);
  if (y->nshofst != y->shcount + 1 || y->nrdofst != y->rdcount + 1 || y->ndflt != y->nstate || y->naction != y->actcount) failf("table sizes do not agree with the counts");
  if (y->shcount != y->maxshift) failf("YY_SHIFT_COUNT is %d but states go up to %d", y->shcount, y->maxshift);
  return y;
}
static int lt_sym(ltab *y, const char *n) { for (int i = 0; i < y->nsym; i++) if (!strcmp(y->sym[i], n)) return i; failf("symbol %s is not in the generated parser", n); return -1; }
/* what the template's shift lookup yields; deflt is set when the entry came from yy_default */
static int lt_shift(ltab *y, int st, int tok, int *deflt) {
  *deflt = 0;
  for (;;) {
    int i = y->shofst[st];
    if (i < 0 || i > y->actcount || i + y->ntoken > y->nlook) failf("shift offset %d of state %d lets a token index leave yy_lookahead", i, st);
    i += tok;
    if (y->look[i] == tok) { if (i >= y->naction) failf("action index %d outside yy_action", i); return y->action[i]; }
    if (y->nfb > 0) { if (tok >= y->nfb) failf("token %d outside yyFallback", tok); if (y->fb[tok]) { if (y->fb[y->fb[tok]]) failf("fallback chain"); tok = y->fb[tok]; continue; } }
    if (y->wild > 0) { int j = i - tok + y->wild; if (j >= y->nlook) failf("wildcard lookup outside yy_lookahead"); if (y->look[j] == y->wild && tok > 0) return y->action[j]; }
    *deflt = 1; return y->dflt[st];
  }
}
static int lt_goto(ltab *y, int st, int nt) {
  if (y->errsym >= 0 && st > y->rdcount) return y->dflt[st];
  if (st > y->rdcount) failf("state %d has no reduce offset", st);
  int i = y->rdofst[st] + nt;
  if (i < 0 || i >= y->actcount || y->look[i] != nt) { if (y->errsym >= 0) return y->dflt[st]; failf("state %d has no entry for nonterminal %d", st, nt); }
  return y->action[i];
}
/* reference: lemon's actions.  Reductions are resolved pairwise in rule order (shift first). */
typedef struct { int kind, v, conf, srk, rrk; } lact; /* kind 0 error 1 shift 2 reduce 4 nonassoc error */
static lact lem_action(gram *g, lr *m, int si, int t) {
  lrstate *s = &m->s[si]; lact a = {0, 0, 0, 0, 0}; int red[MAXI], live[MAXI], nr = 0;
  for (int i = 0; i < s->n; i++) { lritem it = s->it[i]; if (it.rule && it.dot == g->r[it.rule].len && (it.la >> t & 1)) red[nr++] = it.rule; }
  for (int i = 0; i < nr; i++) for (int j = i + 1; j < nr; j++) if (red[j] < red[i]) { int x = red[i]; red[i] = red[j]; red[j] = x; }
  for (int i = 0; i < nr; i++) live[i] = 1;
  int sh = s->gt[t] >= 0;
  for (int i = 0; i < nr && sh == 1; i++) { int rp = g->r[red[i]].prec, tp = g->tprec[t];
    if (tp <= 0 || rp <= 0) { live[i] = 0; a.conf++; a.srk++; }
    else if (tp > rp) live[i] = 0; else if (tp < rp) sh = 0;
    else if (g->tassoc[t] == A_RIGHT) live[i] = 0; else if (g->tassoc[t] == A_LEFT) sh = 0; else sh = 2; }
  if (sh == 2) { a.kind = 4; return a; }
  if (sh == 1) { a.kind = 1; a.v = s->gt[t]; return a; }
  for (int i = 0; i < nr; i++) for (int j = i + 1; j < nr; j++) if (live[i] && live[j]) { int p = g->r[red[i]].prec, q = g->r[red[j]].prec;
    if (p <= 0 || q <= 0 || p == q) { live[j] = 0; a.conf++; a.rrk++; } else if (p > q) live[j] = 0; else live[i] = 0; }
  for (int i = 0; i < nr; i++) if (live[i]) { a.kind = 2; a.v = red[i]; }
  return a;
}
/* %fallback and %wildcard: what a token without an action of its own does */
static int lc_fb[MAXT], lc_wild;
static const char *lc_alias[MAXT];   /* how a terminal is written in the name of a rule (token classes) */
static lact lem_eff(gram *g, lr *m, int si, int t) {
  for (;;) { lact a = lem_action(g, m, si, t); if (a.kind) return a;
    if (lc_fb[t]) { t = lc_fb[t]; continue; }
    if (lc_wild && t) return lem_action(g, m, si, lc_wild);
    return a; }
}
/* gram rule 0 is the artificial accept rule.  tn/nn: names.  code[r]: rule has an action.  compressed: defaults allowed.
 * Returns the reference's conflict count. */
static int lt_compare(gram *g, lr *m, ltab *y, const char **tn, const char **nn, const char *code, int compressed) {
  int tok[MAXT], nts[MAXN], rno[MAXR], map[MAXS], todo[MAXS], n = 0, conf = 0;
  for (int i = 0; i < g->nt; i++) tok[i] = i ? lt_sym(y, tn[i]) : 0;
  for (int i = 0; i < g->nn; i++) nts[i] = lt_sym(y, nn[i]);
  if (y->nrule != g->nr - 1) failf("%d rules in the parser, %d in the grammar", y->nrule, g->nr - 1);
  char used[MAXR] = {0};
  for (int r = 1; r < g->nr; r++) { static char b[200]; sprintf(b, "%s ::=", nn[g->r[r].lhs]); for (int i = 0; i < g->r[r].len; i++) { strcat(b, " "); int x = g->r[r].rhs[i]; strcat(b, ISN(x) ? nn[x - 1000] : lc_alias[x] ? lc_alias[x] : tn[x]); }
    int k; for (k = 0; k < y->nrule; k++) if (!used[k] && !strcmp(y->rule[k], b) && (k < y->nra) == (code[r] != 0)) break;
    if (k == y->nrule) { for (k = 0; k < y->nrule; k++) if (!used[k] && !strcmp(y->rule[k], b)) failf("rule '%s' %s an action but is numbered as if it %s one", b, code[r] ? "has" : "has no", code[r] ? "had not" : "had"); failf("rule '%s' is missing from the generated parser", b); }
    used[k] = 1; rno[r] = k;
    if (y->rlhs[k] != nts[g->r[r].lhs]) failf("left-hand side of rule '%s' is %d", b, y->rlhs[k]);
    if (y->rlen[k] != -g->r[r].len) failf("length of rule '%s' is %d", b, y->rlen[k]); }
  for (int i = 0; i < MAXS; i++) map[i] = -1;
  /* auto[s]: the only thing state s ever does is reduce by one rule */
  int aut[MAXS];
  for (int s = 0; s < m->n; s++) { aut[s] = 0; int ok = 1, r = 0; for (int t = 0; t < g->nt; t++) { lact a = lem_action(g, m, s, t); conf += a.conf; if (a.kind == 1 || a.kind == 4) ok = 0; if (a.kind == 2) { if (r && r != a.v) ok = 0; r = a.v; } } for (int i = 0; i < g->nn; i++) if (m->s[s].gn[i] >= 0) ok = 0; if (ok && r && g->r[r].lhs != g->start) aut[s] = r; }
  map[0] = 0; todo[n++] = 0;
  for (int k = 0; k < n; k++) {
    int s = todo[k], q = map[s]; lrstate *S = &m->s[s];
    if (q > y->maxshift) failf("state number %d out of range", q);
    for (int t = 0; t < g->nt; t++) {
      lact a = lem_eff(g, m, s, t); int d, v = lt_shift(y, q, tok[t], &d);
      if (a.kind == 1) {
        int T = a.v;
        if (v >= y->minsr && v <= y->maxsr) { if (!compressed || !aut[T] || rno[aut[T]] != v - y->minsr) failf("state %d on %s: shift followed at once by reduction %d ('%s'), which is not all the target state can do", q, tn[t], v - y->minsr, y->rule[v - y->minsr]); }
        else if (v > y->maxshift || d) failf("state %d on %s: a shift is required, the table has action %d", q, t ? tn[t] : "$", v);
        else if (map[T] < 0) { map[T] = v; todo[n++] = T; } else if (map[T] != v) failf("state %d on %s: shift to %d expected, the table has %d", q, tn[t], map[T], v);
      } else if (a.kind == 2) {
        if (v != y->minred + rno[a.v]) failf("state %d on %s: reduce by '%s' is required, the table has action %d", q, t ? tn[t] : "$", y->rule[rno[a.v]], v);
      } else if (v != y->err) {
        if (v < y->minred || !d || !compressed) failf("state %d on %s: a syntax error is required, the table has action %d", q, t ? tn[t] : "$", v);
        if (a.kind == 4) failf("state %d on %s: %%nonassoc makes this an error, but the default reduction '%s' is taken", q, tn[t], y->rule[v - y->minred]);
        int any = 0; for (int u = 0; u < g->nt; u++) { lact c = lem_action(g, m, s, u); if (c.kind == 2 && rno[c.v] == v - y->minred) any = 1; }
        if (!any) failf("state %d reduces by '%s' by default, which it never may", q, y->rule[v - y->minred]);
      }
    }
    for (int i = 0; i < g->nn; i++) if (S->gn[i] >= 0) {
      int v = lt_goto(y, q, nts[i]), X = i;
      if (s == 0 && i == g->start) { if (v != y->acc) failf("state 0 on the start symbol: accept expected, the table has %d", v); continue; }
      int T = S->gn[X], lim = 0, acc = 0;
      while (compressed && aut[T] && g->r[aut[T]].len == 1 && !code[aut[T]]) { X = g->r[aut[T]].lhs; if (s == 0 && X == g->start) { acc = 1; break; } T = S->gn[X]; if (T < 0 || ++lim > 20) break; }
      if (lim > 20 || T < 0) continue;
      if (acc) { if (v != y->acc) failf("state %d on %s: accept expected, the table has %d", q, nn[i], v); continue; }
      if (v >= y->minred && v <= y->maxred) { if (!compressed || !aut[T] || rno[aut[T]] != v - y->minred) failf("state %d on %s: reduction %d at once, which is not all the target state can do", q, nn[i], v - y->minred); }
      else if (v > y->maxshift) failf("state %d on nonterminal %s: action %d", q, nn[i], v);
      else if (map[T] < 0) { map[T] = v; todo[n++] = T; } else if (map[T] != v) failf("state %d on nonterminal %s: goto %d expected, the table has %d", q, nn[i], map[T], v);
    }
  }
  return conf;
}
/* number printed by "N parsing conflicts." (0 when there is no such line) */
static int lem_conflicts(void) { const char *e = fdata("<stderr>"); const char *p = e ? strstr(e, " parsing conflicts.") : 0; if (!p) return 0; while (p > e && isdigit((unsigned char)p[-1])) p--; return atoi(p); }
/* a template with lemon's sections in lempar.c's order, without the driver */
static const char LEMPAR[] =
  "/* inc: Parse and (ParseTOKENTYPE) */\n%%\n/* tok */\n%%\n/* ctl */\n%%\n/* tab */\n%%\n#ifdef YYFALLBACK\nstatic const YYCODETYPE yyFallback[] = {\n%%\n};\n#endif\n"
  "static const char *const yyTokenName[] = { \n%%\n};\nstatic const char *const yyRuleName[] = {\n%%\n};\n/* destructors */\n%%\n/* overflow */\n%%\n"
  "static const YYCODETYPE yyRuleInfoLhs[] = {\n%%\n};\nstatic const signed char yyRuleInfoNRhs[] = {\n%%\n};\n/* reduce */\n%%\n/* failure */\n%%\n/* error */\n%%\n/* accept */\n%%\n/* end */\n";
#endif
