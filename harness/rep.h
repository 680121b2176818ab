/* y.output and y.dot against the tables in y.tab.c and the reference automaton. */
#ifndef REP_H
#define REP_H
#include "hc.h"
typedef struct { const char *p; char b[600]; int n; } lines;
static int line_next(lines *l) { if (!*l->p) return 0; l->n = 0; while (*l->p && *l->p != '\n') { if (l->n >= 598) sym_limit_exceeded(); l->b[l->n++] = *l->p++; } l->b[l->n] = 0; if (*l->p) l->p++; return 1; }
static const char *symn(const char **tn, const char **nn, int x) { return ISN(x) ? nn[x - 1000] : tn[x]; }
static int sym_of(gram *g, const char **tn, const char **nn, const char *s, int n) { for (int i = 0; i < g->nt; i++) if ((int)strlen(tn[i]) == n && !strncmp(tn[i], s, n)) return i; for (int i = 0; i < g->nn; i++) if ((int)strlen(nn[i]) == n && !strncmp(nn[i], s, n)) return NT(i); return -1; }
static const char *rname(gram *g, const char **nn, int r) { return r ? nn[g->r[r].lhs] : "$accept"; }
/* the text of an item; rule 0 is $accept : start $end */
static void item_text(char *b, gram *g, const char **tn, const char **nn, int r, int dot, const char *sep, int tail) {
  sprintf(b, "%s %s ", rname(g, nn, r), sep); int n = g->r[r].len + (r == 0); for (int i = 0; i < dot; i++) { strcat(b, r == 0 && i == 1 ? "$end" : symn(tn, nn, g->r[r].rhs[i])); strcat(b, " "); }
  strcat(b, "."); for (int i = dot; i < n; i++) { strcat(b, " "); strcat(b, r == 0 && i == 1 ? "$end" : symn(tn, nn, g->r[r].rhs[i])); } if (tail) sprintf(b + strlen(b), "  (%d)", r);
}
typedef struct { int t, kind, a, b, seen; } confl;  /* kind 0: shift a, reduce b; 1: reduce a, reduce b; 2: accept, reduce b */
static int conflicts_of(gram *g, lr *m, int si, confl *c, int *uns) {
  lrstate *s = &m->s[si]; int n = 0;
  for (int t = 0; t < g->nt; t++) { act fin = lr_action(g, m, si, t); if (fin.kind == 5) { *uns = 1; continue; } int red[MAXI], nr = 0, acc = 0, kind = 0, v = 0;
    for (int i = 0; i < s->n; i++) { lritem it = s->it[i]; if (it.dot == g->r[it.rule].len && (it.la >> t & 1)) { if (it.rule == 0) acc = 1; else red[nr++] = it.rule; } }
    for (int i = 0; i < nr; i++) for (int j = i + 1; j < nr; j++) if (red[j] < red[i]) { int x = red[i]; red[i] = red[j]; red[j] = x; }
    if (acc) { for (int i = 0; i < nr; i++) c[n++] = (confl){t, 2, 0, red[i], 0}; continue; }
    if (s->gt[t] >= 0) { kind = 1; v = s->gt[t]; }
    for (int i = 0; i < nr; i++) { int r = red[i]; if (n > 190) sym_limit_exceeded(); if (!kind) { kind = 2; v = r; } else if (kind == 2) { int p = g->r[v].prec, q = g->r[r].prec; if (g->rrprec && p > 0 && q > 0 && p != q) { if (p < q) v = r; } else c[n++] = (confl){t, 1, v, r, 0}; }
      else if (g->tprec[t] > 0 && g->r[r].prec > 0) { if (g->tprec[t] < g->r[r].prec || (g->tprec[t] == g->r[r].prec && g->tassoc[t] == A_LEFT)) { kind = 2; v = r; } else if (g->tprec[t] == g->r[r].prec && g->tassoc[t] == A_NONASSOC) break; }
      else c[n++] = (confl){t, 0, v, r, 0}; } }
  return n;
}
static int num_at(const char **p) { int v = 0; if (!isdigit((unsigned char)**p)) failf("a number is missing in the report"); while (isdigit((unsigned char)**p)) v = 10 * v + *(*p)++ - '0'; return v; }
static int starts(const char **p, const char *w) { int n = (int)strlen(w); if (strncmp(*p, w, n)) return 0; *p += n; return 1; }
static int tok_at(gram *g, const char **tn, const char **nn, const char **p, const char *stop) { const char *e = strstr(*p, stop); if (!e) return -1; int x = sym_of(g, tn, nn, *p, (int)(e - *p)); *p = e + strlen(stop); return x; }
static int rep_of[MAXS], rep_ref[MAXS], rep_ns;     /* reference state of byacc's state, and back */
static void rep_check(gram *g, lr *m, ytab *y, const char **tn, const char **nn, const int *tok, int ntok) {
  const char *f = fdata("y.output"); static lines l; l.p = f; if (!f) failf("no y.output"); static char w[600]; int uns = 0;
  /* the rules */
  for (int r = 0; r < g->nr; r++) { do { if (!line_next(&l)) failf("y.output ends within the rules"); } while (!l.n); const char *p = l.b; while (*p == ' ') p++; if (num_at(&p) != r) failf("y.output: rule %d is missing", r); while (*p == ' ') p++;
    int prev = r > 1 ? g->r[r - 1].lhs : -9; if (r && prev == g->r[r].lhs) { if (!starts(&p, "|")) failf("y.output: rule %d", r); } else { if (!starts(&p, rname(g, nn, r)) || !starts(&p, " :")) failf("y.output: rule %d has another left-hand side", r); }
    for (int i = 0; i < g->r[r].len + (r == 0); i++) { if (!starts(&p, " ") || !starts(&p, r == 0 && i == 1 ? "$end" : symn(tn, nn, g->r[r].rhs[i]))) failf("y.output: rule %d: %s", r, l.b); } while (*p == ' ') p++; if (starts(&p, "%prec ")) { int x = sym_of(g, tn, nn, p, (int)strlen(p)); if (x < 0 || ISN(x)) failf("y.output: rule %d: %s", r, l.b); if (g->tprec[x] != g->r[r].prec) failf("y.output: rule %d has another %%prec than the report says: %s", r, l.b); p += strlen(p); } if (*p) failf("y.output: rule %d: %s", r, l.b); }
  /* first pass: kernels */
  const char *body = l.p; rep_ns = 0; for (int i = 0; i < MAXS; i++) rep_ref[i] = -1;
  while (line_next(&l)) { const char *p = l.b; if (!starts(&p, "state ")) continue; int q = num_at(&p); if (*p || q != rep_ns) failf("y.output: '%s', state %d expected", l.b, rep_ns); if (q >= MAXS) sym_limit_exceeded();
    int cand[MAXS]; for (int i = 0; i < m->n; i++) cand[i] = 1; int k = 0;
    while (line_next(&l) && l.b[0] == '\t' && strncmp(l.b, "\t.  ", 4)) { int hit = -1, hd = 0; for (int r = 0; r < g->nr && hit < 0; r++) for (int d = 0; d <= g->r[r].len; d++) { w[0] = '\t'; item_text(w + 1, g, tn, nn, r, d, ":", 1); if (!strcmp(w, l.b)) { hit = r; hd = d; break; } }
      if (hit < 0) failf("y.output: state %d: no item of the grammar: %s", q, l.b); if (!hd && (hit || q)) continue; k++; /* nulls come later */
      for (int i = 0; i < m->n; i++) { int in = 0; for (int j = 0; j < m->s[i].nk; j++) if (m->s[i].it[j].rule == hit && m->s[i].it[j].dot == hd) in = 1; if (!in) cand[i] = 0; } }
    int s = -1; for (int i = 0; i < m->n; i++) if (cand[i] && m->s[i].nk == k) s = i; if (s < 0) failf("y.output: state %d has a kernel no state of the grammar has", q); if (rep_ref[s] >= 0) failf("y.output: states %d and %d have one kernel", q, rep_ref[s]); rep_ref[s] = q; rep_of[q] = s; rep_ns++; }
  if (rep_ns != m->n) failf("y.output lists %d states, there are %d", rep_ns, m->n);
  /* second pass */
  l.p = body; static confl c[200]; int nc = 0, more = line_next(&l), q = 0; for (; q < rep_ns; q++) {
    int s = rep_of[q]; lrstate *S = &m->s[s]; uns = 0; nc = conflicts_of(g, m, s, c, &uns); act ex[MAXT]; memset(ex, 0, sizeof ex); int dk = 0, dv = 0, dot = 0, nul[MAXR] = {0}, gs[MAXN], final_ = 0, isf = 0; for (int i = 0; i < MAXN; i++) gs[i] = -1; for (int i = 0; i < S->n; i++) if (S->it[i].rule == 0 && S->it[i].dot == 1) isf = 1;
    while (more && strncmp(l.b, "state ", 6)) { const char *p = l.b; if (isdigit((unsigned char)*p)) { int n0 = num_at(&p), kind, a = 0, b, t, i; if (n0 != q) failf("y.output: before state %d: %s", q, l.b);
          if (starts(&p, ": shift/reduce conflict (accept, reduce ")) kind = 2; else if (starts(&p, ": shift/reduce conflict (shift ")) { kind = 0; a = num_at(&p); if (a >= rep_ns) failf("y.output: %s", l.b); a = rep_of[a]; if (!starts(&p, ", reduce ")) failf("y.output: %s", l.b); }
          else if (starts(&p, ": reduce/reduce conflict (reduce ")) { kind = 1; a = num_at(&p); if (a <= 0 || a >= g->nr || !starts(&p, " [") || !starts(&p, rname(g, nn, a)) || !starts(&p, "], reduce ")) failf("y.output: %s", l.b); } else failf("y.output: %s", l.b);
          b = num_at(&p); if (b <= 0 || b >= g->nr || !starts(&p, " [") || !starts(&p, rname(g, nn, b)) || !starts(&p, "]) on ")) failf("y.output: %s", l.b); t = sym_of(g, tn, nn, p, (int)strlen(p)); for (i = 0; i < nc; i++) if (!c[i].seen && c[i].t == t && c[i].kind == kind && (kind == 2 || c[i].a == a) && c[i].b == b) break; if (i < nc) c[i].seen = 1; else if (!uns) failf("y.output: no such conflict: %s", l.b); }
      else if (*p && *p != '\f') failf("y.output: before state %d: %s", q, l.b); more = line_next(&l); }
    if (!more) failf("y.output ends before state %d", q); for (int i = 0; i < nc; i++) if (!c[i].seen && !uns) failf("y.output: state %d: a conflict on %s is not reported", q, tn[c[i].t]);
    int part = 0; /* kernel and nulls; actions; gotos */
    while ((more = line_next(&l)) && (l.b[0] == '\t' || !l.n)) { const char *p = l.b; if (!l.n) { part++; continue; } p++;
      if (part == 0) { for (int r = 1; r < g->nr; r++) if (!g->r[r].len) { w[0] = '\t'; item_text(w + 1, g, tn, nn, r, 0, ":", 1); if (!strcmp(w, l.b)) { if (nul[r]++) failf("y.output: state %d: %s twice", q, l.b); } } continue; }
      if (!strcmp(p, ".  error")) { dot = 1; dk = 0; continue; } if (starts(&p, ".  reduce ")) { dot = 1; dk = 2; dv = num_at(&p); continue; } if (!strcmp(p, "$end  accept")) { final_ = 1; continue; }
      int x = tok_at(g, tn, nn, &p, "  "); if (x < 0) failf("y.output: state %d: %s", q, l.b);
      if (ISN(x)) { if (!starts(&p, "goto ")) failf("y.output: state %d: %s", q, l.b); if (gs[x - 1000] >= 0) failf("y.output: state %d: %s twice", q, l.b); gs[x - 1000] = num_at(&p); if (*p) failf("y.output: state %d: %s", q, l.b); continue; }
      if (ex[x].kind) failf("y.output: state %d has two actions on %s", q, tn[x]); if (starts(&p, "shift ")) { ex[x].kind = 1; ex[x].v = num_at(&p); if (*p) failf("y.output: state %d: %s", q, l.b); } else if (starts(&p, "reduce ")) { ex[x].kind = 2; ex[x].v = num_at(&p); if (ex[x].v <= 0 || ex[x].v >= g->nr || !starts(&p, " [") || !starts(&p, rname(g, nn, ex[x].v)) || strcmp(p, "]")) failf("y.output: state %d: %s", q, l.b); } else failf("y.output: state %d: %s", q, l.b); }
    if (final_ != isf) failf("y.output: state %d: accept", q);
    for (int t = 0; t < g->nt; t++) { int d; act a = yt_action(y, q, tok[t], &d), e = ex[t]; if (!e.kind && dk) { e.kind = dk; e.v = dv; } if (t == 0 && isf) { continue; } if (a.kind != e.kind || (a.kind && a.v != e.v)) failf("y.output: state %d on %s: the report says %s %d, the tables %s %d", q, tn[t], e.kind == 1 ? "shift" : e.kind ? "reduce" : "error", e.v, a.kind == 1 ? "shift" : a.kind ? "reduce" : "error", a.v); 
      if (a.kind == 2 && !g->r[a.v].len && !nul[a.v]) failf("y.output: state %d reduces the empty rule %d, which is not among its items", q, a.v); }
    for (int r = 1; r < g->nr; r++) if (nul[r]) { int in = 0; for (int i = 0; i < S->n; i++) if (S->it[i].rule == r && S->it[i].dot == 0) in = 1; if (!in) failf("y.output: state %d: rule %d is not among its items", q, r); }
    for (int i = 0; i < g->nn; i++) { int e = S->gn[i] < 0 ? -1 : rep_ref[S->gn[i]]; if (gs[i] != e) failf("y.output: state %d on %s: the report says goto %d, the grammar %d", q, nn[i], gs[i], e); }
    for (int t = 0; t < g->nt; t++) if (ex[t].kind == 1 && (S->gt[t] < 0 || ex[t].v != rep_ref[S->gt[t]])) failf("y.output: state %d on %s: shift to the wrong state %d", q, tn[t], ex[t].v);
  }
  /* the end */
  int never[MAXR], nn_ = 0, tsr[MAXS], trr[MAXS]; uns = 0; for (int r = 0; r < g->nr; r++) never[r] = 1; for (int s = 0; s < m->n; s++) { nc = conflicts_of(g, m, s, c, &uns); tsr[s] = trr[s] = 0; for (int i = 0; i < nc; i++) if (c[i].kind == 1) trr[s]++; else tsr[s]++; for (int t = 0; t < g->nt; t++) { act a = lr_action(g, m, s, t); if (a.kind == 2) never[a.v] = 0; } }
  int seen[MAXS] = {0}, listed[MAXR] = {0}, inlist = 0, fin = 0;
  for (; more; more = line_next(&l)) { const char *p = l.b; if (!l.n) continue; if (!strcmp(p, "Rules never reduced:")) { inlist = 1; continue; }
    if (*p == '\t' && inlist) { const char *e = p + strlen(p); while (*e != '(') e--; e++; int r = num_at(&e); if (r <= 0 || r >= g->nr || (!never[r] && !uns)) failf("y.output: said never to be reduced: %s", p); listed[r] = 1; p++; if (!starts(&p, rname(g, nn, r)) || !starts(&p, " :")) failf("y.output: %s", l.b); for (int i = 0; i < g->r[r].len; i++) if (!starts(&p, " ") || !starts(&p, symn(tn, nn, g->r[r].rhs[i]))) failf("y.output: %s", l.b); continue; }
    if (starts(&p, "State ")) { int s = num_at(&p), a = 0, b = 0; if (s >= rep_ns || seen[s]++) failf("y.output: %s", l.b); const char *z = strstr(p, " shift/reduce"); if (z) { while (isdigit((unsigned char)z[-1])) z--; a = num_at(&z); } z = strstr(p, " reduce/reduce"); if (z) { while (isdigit((unsigned char)z[-1])) z--; b = num_at(&z); } if (!uns && (a != tsr[rep_of[s]] || b != trr[rep_of[s]])) failf("y.output: %s; it has %d and %d", l.b, tsr[rep_of[s]], trr[rep_of[s]]); continue; }
    if (isdigit((unsigned char)*p)) { int v = num_at(&p); if (starts(&p, " terminals, ")) { int n2 = num_at(&p); if (v != ntok + 1 || n2 != g->nn + 1 || strcmp(p, " nonterminals")) failf("y.output: %s; there are %d and %d", l.b, ntok + 1, g->nn + 1); fin |= 1; } else if (starts(&p, " grammar rules, ")) { int n2 = num_at(&p); if (v != g->nr || n2 != m->n || strcmp(p, " states")) failf("y.output: %s; there are %d and %d", l.b, g->nr, m->n); fin |= 2; } else failf("y.output: %s", l.b); continue; }
    if (fin == 3) break; failf("y.output: %s", l.b); }
  if (fin != 3) failf("y.output has no totals"); for (int r = 1; r < g->nr; r++) if (never[r] && !listed[r] && !uns) failf("y.output: rule %d is never reduced, the report does not say so", r);
  for (int s = 0; s < rep_ns; s++) if ((tsr[rep_of[s]] || trr[rep_of[s]]) && !seen[s] && !uns) failf("y.output: the conflicts of state %d are not in the summary", s);
}
/* y.dot: after rep_check */
static void dot_check(gram *g, lr *m, const char **tn, const char **nn) {
  const char *f = fdata("y.dot"); if (!f) failf("no y.dot"); static char w[600]; static lines l; l.p = f; static char node[MAXS]; memset(node, 0, sizeof node); int edges = 0, want = 0; static char e[MAXS][MAXT + MAXN]; memset(e, 0, sizeof e);
  while (line_next(&l)) { const char *p = l.b; if (!starts(&p, "\tq")) continue; if (!isdigit((unsigned char)*p)) failf("y.dot: %s", l.b); int q = num_at(&p); if (q >= rep_ns) failf("y.dot: no state %d", q); lrstate *S = &m->s[rep_of[q]];
    if (starts(&p, " [label=\"")) { if (node[q]++) failf("y.dot: state %d twice", q); if (num_at(&p) != q || !starts(&p, ":\\l")) failf("y.dot: %s", l.b); char got[MAXI] = {0}; int cnt = 0;
      while (!starts(&p, "\"];")) { const char *z = strstr(p, "\\l"); if (!z || !starts(&p, "  ")) failf("y.dot: state %d: %s", q, l.b); int i; 
        for (i = 0; i < S->n; i++) { int r = S->it[i].rule, d = S->it[i].dot; if (got[i]) continue; item_text(w, g, tn, nn, r, d, "->", 0); int n = (int)strlen(w); if (strncmp(p, w, n)) continue; int full = d == g->r[r].len && r; if (!full) { if (p + n != z) continue; } else { const char *a = p + n; if (!starts(&a, " { ")) { if (a == z) failf("y.dot: state %d: no lookaheads of %s", q, w); continue; } lset la = 0; while (*a != '}') { int x = tok_at(g, tn, nn, &a, " "); if (x < 0 || ISN(x)) failf("y.dot: state %d: %s", q, l.b); la |= L1(x); } if (a + 1 != z) failf("y.dot: state %d: %s", q, l.b); if (la != S->it[i].la) { for (int t = 0; t < g->nt; t++) if (((la ^ S->it[i].la) >> t) & 1) failf("y.dot: state %d: lookahead %s of %s is %s", q, tn[t], w, (la >> t) & 1 ? "wrong" : "missing"); } } got[i] = 1; cnt++; break; }
        if (i == S->n) failf("y.dot: state %d: an item it does not have: %s", q, p); p = z + 2; }
      if (cnt != S->n) failf("y.dot: state %d lists %d of %d items", q, cnt, S->n); continue; }
    if (!starts(&p, " -> q")) failf("y.dot: %s", l.b); int to = num_at(&p); if (!starts(&p, " [label=\"")) failf("y.dot: %s", l.b); int x = tok_at(g, tn, nn, &p, "\"];"); if (x < 0) failf("y.dot: %s", l.b); int k = ISN(x) ? g->nt + x - 1000 : x, t = ISN(x) ? S->gn[x - 1000] : S->gt[x]; if (t < 0 || rep_ref[t] != to || e[q][k]++) failf("y.dot: no such transition: %s", l.b); edges++; }
  for (int s = 0; s < m->n; s++) { if (!node[rep_ref[s]]) failf("y.dot: state %d is missing", rep_ref[s]); for (int t = 0; t < g->nt; t++) want += m->s[s].gt[t] >= 0; for (int i = 0; i < g->nn; i++) want += m->s[s].gn[i] >= 0; }
  if (edges != want) failf("y.dot has %d of %d transitions", edges, want);
}
#endif
