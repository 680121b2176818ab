/* Reference LR driver: what a parser generated from a grammar has to do with a token sequence, step by step
 * (reads, reductions with their values, error reports, recovery, destructors), computed from the grammar alone. */
#ifndef RP_H
#define RP_H
#include "hc.h"
/* "s=e;e=e+e^+;e=?~": lower case nonterminals, '?' the error token, everything else tokens; suffix ~ : no action,
 * ^c : %prec c.  The first rule's left-hand side is the start symbol. */
static char sp_tok[MAXT], sp_nt[MAXN], sp_code[MAXR];
static int sp_sym(gram *g, char c) {
  if (islower((unsigned char)c)) { for (int i = 0; i < g->nn; i++) if (sp_nt[i] == c) return NT(i); if (g->nn >= MAXN) sym_limit_exceeded(); sp_nt[g->nn] = c; return NT(g->nn++); }
  for (int i = 1; i < g->nt; i++) if (sp_tok[i] == c) return i; if (g->nt >= MAXT) sym_limit_exceeded(); sp_tok[g->nt] = c; return g->nt++;
}
static int sp_id[MAXR], sp_emb[MAXR], sp_cmd[MAXR], sp_zero[MAXR];   /* id in the log; 1 + number of symbols before a mid-rule action; control macro; logs $0 */
static void sp_gram(gram *g, const char *spec, const char *prec) {
  g_init(g, 1, 0, 0); int l = 0, id = 0, emb = 0;
  for (const char *p = prec; *p; p++) { if (*p == ';') continue; int as = *p == 'L' ? A_LEFT : *p == 'R' ? A_RIGHT : *p == 'N' ? A_NONASSOC : A_PREC; l++; for (p++; *p && *p != ';'; p++) { int t = sp_sym(g, *p); g->tprec[t] = l; g->tassoc[t] = as; } if (!*p) break; }
  for (const char *p = spec; *p;) { int A = sp_sym(g, *p) - 1000; const char *e = p + 2; 
    for (; *e && *e != ';'; e++) ;
    /* mid-rule actions become empty rules in front of the rule they occur in */
    int first = g->nr, k = 0, pos = 0; for (const char *x = p + 2; x < e; x++) { if (*x == '^' || *x == '!') { x++; continue; } if (*x == '~' || *x == '@') continue; pos++; if (*x == '#') { if (g->nn >= MAXN) sym_limit_exceeded(); sp_nt[g->nn] = 1; int q = g_rule(g, g->nn++); sp_code[q] = 1; sp_id[q] = 60 + emb++; sp_emb[q] = pos; k++; } }
    int q = g_rule(g, A), nk = 0; sp_code[q] = 1; sp_id[q] = ++id; 
    for (const char *x = p + 2; x < e; x++) { if (*x == '~') { sp_code[q] = 0; continue; } if (*x == '@') { sp_zero[q] = 1; continue; } if (*x == '!') { sp_cmd[q] = *++x; continue; } if (*x == '^') { int t = sp_sym(g, *++x); g->r[q].prec = g->tprec[t]; g->r[q].assoc = g->tassoc[t]; continue; }
      if (*x == '#') { g_sym(g, q, NT(g->r[first + nk].lhs)); nk++; continue; }
      int s = sp_sym(g, *x); g_sym(g, q, s); if (!ISN(s)) { g->r[q].prec = g->tprec[s]; g->r[q].assoc = g->tassoc[s]; } }
    p = *e ? e + 1 : e; }
}
/* value a rule's action computes */
static int sp_value(int rule, int n, const int *v) { int h = rule * 37 + n; for (int i = 0; i < n; i++) h = (h * 31 + v[i]) % 9973; return h + 1000; }
typedef struct { int fl, fc, ll, lc; } loc_t;
static void log_rule(txt *o, int rule, int n, const int *v, const loc_t *l) {
  t_c(o, 'r'); t_d(o, rule); t_c(o, '('); for (int i = 0; i < n; i++) { if (i) t_c(o, ','); t_d(o, v[i]); } t_c(o, ')');
  if (l) for (int i = 0; i <= n; i++) { t_c(o, i ? ' ' : '@'); t_d(o, l[i].fl); t_c(o, '.'); t_d(o, l[i].fc); t_c(o, '-'); t_d(o, l[i].ll); t_c(o, '.'); t_d(o, l[i].lc); }
  t_c(o, ' ');
}
typedef struct { gram *g; lr *m; int bt, back, destr, loc, init, max; int ntok, tok[64], val[64]; loc_t tl[64]; txt *o; int nerr, reads; } rp;
static int rp_defred(rp *p, int s) {
  int r = 0, cnt = 0; for (int t = 0; t < p->g->nt; t++) { act a = lr_action(p->g, p->m, s, t); if (a.kind == 1) return 0; if (a.kind == 2) { if (r && r != a.v) return 0; r = a.v; if (sp_tok[t] != '?') cnt++; } }
  return cnt ? r : 0;
}
enum { RPS = 256 };
/* returns yyparse's result */
static int rp_parse(rp *p) {
  gram *g = p->g; int st[RPS], sv[RPS], n = 0, ssym[RPS]; loc_t sl[RPS]; int ch = -1, chv = 0, pos = 0, ef = 0, err = -1; loc_t chl = {0}, er1 = {0};
  static int lookt[RPS]; (void)lookt; memset(sl, 0, sizeof sl);
  for (int t = 1; t < g->nt; t++) if (sp_tok[t] == '?') err = t;
  st[0] = 0; sv[0] = 0; ssym[0] = -5; int raw = 0;
#define READ() do { if (ch == -1) { t_c(p->o, 'L'); p->reads++; if (pos < p->ntok) { ch = p->tok[pos]; chv = p->val[pos]; chl = p->tl[pos]; raw = p->tok[pos]; pos++; } else { ch = 0; raw = 0; } } } while (0)
#define PUSH(S, V, Y, LL) do { if (n + 1 >= RPS) sym_limit_exceeded(); if (n + 2 > (p->max > p->init ? p->max : p->init)) { t_s(p->o, "E<yacc stack overflow>"); goto over; } n++; st[n] = (S); sv[n] = (V); ssym[n] = (Y); sl[n] = (LL); } while (0)
  int res; (void)raw;
  for (;;) {
    int s = st[n], r = rp_defred(p, s);
    act a = {0};
    if (!r) { READ(); if (ch > 0 && ch < 900 && ch < g->nt) a = lr_action(g, p->m, s, ch); else if (ch == 0) a = lr_action(g, p->m, s, 0);
      if (a.kind == 3) { res = 0; break; }
      if (a.kind == 2) r = a.v; }
    if (r) {
      int k = g->r[r].len, v[MAXL], x = 0; loc_t L[MAXL + 1]; memset(L, 0, sizeof L); for (int i = 0; i < k; i++) { v[i] = sv[n - k + 1 + i]; L[i + 1] = sl[n - k + 1 + i]; }
      if (k) { L[0] = (loc_t){L[1].fl, L[1].fc, L[k].ll, L[k].lc}; er1 = L[1]; } else { L[0] = (loc_t){sl[n].ll, sl[n].lc, sl[n].ll, sl[n].lc}; }
      if (sp_emb[r]) { int kk = sp_emb[r] - 1, w[MAXL]; for (int i = 0; i < kk; i++) w[i] = sv[n - kk + 1 + i]; log_rule(p->o, sp_id[r], kk, w, 0); x = sp_value(sp_id[r], kk, w); }
      else if (sp_code[r]) { if (sp_zero[r]) { t_c(p->o, 'z'); t_d(p->o, sv[n - k]); t_c(p->o, ' '); } log_rule(p->o, sp_id[r], k, v, p->loc ? L : 0); x = sp_value(sp_id[r], k, v); } else x = k ? v[0] : 0;
      if (sp_cmd[r] == 'k') ef = 0;
      if (sp_cmd[r] == 'c') ch = -1;
      if (sp_cmd[r] == 'a') { res = 0; break; }
      if (sp_cmd[r] == 'b') { res = 1; break; }
      if (sp_cmd[r] == 'e') { if (p->back) n -= k; goto recover; }
      n -= k;
      int A = g->r[r].lhs, to = p->m->s[st[n]].gn[A];
      if (n == 0 && A == g->start) { n++; st[n] = to; sv[n] = x; ssym[n] = NT(A); sl[n] = L[0]; READ(); if (ch == 0) { res = 0; break; } continue; }
      PUSH(to, x, NT(A), L[0]);
      continue;
    }
    if (a.kind == 1) { PUSH(a.v, chv, ch, chl); ch = -1; if (ef) ef--; continue; }
    if (ef == 0) { t_s(p->o, "E<syntax error>"); p->nerr++; er1 = chl; }
    recover:
    if (ef < 3) { ef = 3; int ok = 0;
      for (;;) { int q = err >= 0 ? p->m->s[st[n]].gt[err] : -1; if (q >= 0) { act e = lr_action(g, p->m, st[n], err); if (e.kind != 1) q = -1; }
        if (q >= 0) { loc_t l = {er1.fl, er1.fc, chl.ll, chl.lc}; PUSH(q, chv, err, l); ok = 1; break; }
        if (n == 0) break;
        er1 = sl[n];
        if (p->destr && ssym[n] != err) { t_s(p->o, "d"); t_d(p->o, ssym[n]); t_c(p->o, ':'); t_d(p->o, sv[n]); t_c(p->o, ' '); }
        n--; }
      if (!ok) { res = 1; break; }
    } else { if (ch == 0) { res = 1; break; } if (p->destr && ch < 900) { t_s(p->o, "D"); t_d(p->o, ch); t_c(p->o, ':'); t_d(p->o, chv); t_c(p->o, ' '); } ch = -1; }
  }
  if (0) { over: res = p->bt ? 2 : 1; }
  if (p->destr) { if (ch > 0 && ch < 900) { t_s(p->o, "D"); t_d(p->o, ch); t_c(p->o, ':'); t_d(p->o, chv); t_c(p->o, ' '); }
    for (int i = 1; i <= n; i++) if (ssym[i] != err) { t_s(p->o, "d"); t_d(p->o, ssym[i]); t_c(p->o, ':'); t_d(p->o, sv[i]); t_c(p->o, ' '); } }
  t_c(p->o, '='); t_d(p->o, res);
  return res;
}
/* ---- backtracking: depth first over the unresolved conflicts, shift before reductions, rules in order ---- */
typedef struct { int st[RPS], sv[RPS], n, pos; } bk;
static int bk_alts(gram *g, lr *m, int s, int t, int *alt) { /* alternatives: -1 shift, 0 accept, otherwise a rule; one entry when there is no conflict */
  act a = lr_action(g, m, s, t); if (a.kind == 3) return alt[0] = 0, 1;
  if (a.kind == 4 || a.kind == 0) return 0;
  int n = 0, sh = m->s[s].gt[t] >= 0; if (a.kind == 1) alt[n++] = -1; if (!a.sr && !a.rr) { if (a.kind == 2) alt[n++] = a.v; return n; }
  int red[MAXI], nr = 0; for (int i = 0; i < m->s[s].n; i++) { lritem it = m->s[s].it[i]; if (it.rule && it.dot == g->r[it.rule].len && (it.la >> t & 1)) red[nr++] = it.rule; }
  for (int i = 0; i < nr; i++) for (int j = i + 1; j < nr; j++) if (red[j] < red[i]) { int x = red[i]; red[i] = red[j]; red[j] = x; }
  for (int i = 0; i < nr; i++) { if (sh && g->tprec[t] > 0 && g->r[red[i]].prec > 0) continue; alt[n++] = red[i]; }
  return n;
}
static int bk_real, bk_steps;   /* length of the log when the first choice was met */
static int bk_go(rp *p, bk *b, int trial) {
  gram *g = p->g;
  for (;;) {
    if (++bk_steps > 3000) sym_limit_exceeded();
    int s = b->st[b->n], r = rp_defred(p, s), alt[MAXI], na = 1;
    if (r) alt[0] = r; else { int t = b->pos < p->ntok ? p->tok[b->pos] : 0; na = t >= 900 ? 0 : bk_alts(g, p->m, s, t, alt); }
    if (!na) return 0;
    if (na > 1 && !trial) { trial = 1; bk_real = p->o->n; }
    for (int i = 0; i < na; i++) {
      bk *c = b; int keep = p->o->n; if (na > 1) { c = malloc(sizeof *c); *c = *b; }
      if (alt[i] == 0) return 1;
      int R = alt[i];
      if (R < 0) { if (c->n + 1 >= RPS) sym_limit_exceeded(); int t = p->tok[c->pos]; c->n++; c->st[c->n] = p->m->s[s].gt[t]; c->sv[c->n] = p->val[c->pos]; c->pos++; }
      else { int k = g->r[R].len, v[MAXL], x; for (int j = 0; j < k; j++) v[j] = c->sv[c->n - k + 1 + j];
        if (sp_code[R]) { log_rule(p->o, sp_id[R], k, v, 0); x = sp_value(sp_id[R], k, v); } else x = k ? v[0] : 0;
        c->n -= k; int A = g->r[R].lhs, to = p->m->s[c->st[c->n]].gn[A]; c->n++; c->st[c->n] = to; c->sv[c->n] = x; }
      if (na == 1) break;
      if (bk_go(p, c, 1)) return 1;
      free(c); p->o->n = keep; p->o->b[keep] = 0;
    }
    if (na > 1) return 0;
  }
}
static int rp_back(rp *p) {
  bk *b = calloc(1, sizeof *b); bk_real = -1; bk_steps = 0;
  int ok = bk_go(p, b, 0);
  if (!ok) { if (bk_real >= 0) p->o->n = bk_real; p->o->b[p->o->n] = 0; t_s(p->o, "E<syntax error>"); }
  t_c(p->o, '='); t_d(p->o, !ok); free(b); return !ok;
}
#endif
