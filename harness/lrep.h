/* lemon's report (g.out), header (g.h) and SQL description (g.sql) against the tables and the reference automaton. */
#ifndef LREP_H
#define LREP_H
#include "lc.h"
typedef struct { const char *p; char b[600]; int n; } lines;
static int line_next(lines *l) { if (!*l->p) return 0; l->n = 0; while (*l->p && *l->p != '\n') { if (l->n >= 598) sym_limit_exceeded(); l->b[l->n++] = *l->p++; } l->b[l->n] = 0; if (*l->p) l->p++; return 1; }
static int starts(const char **p, const char *w) { int n = (int)strlen(w); if (strncmp(*p, w, n)) return 0; *p += n; return 1; }
static int num_at(const char **p) { int v = 0; if (!isdigit((unsigned char)**p)) failf("a number is missing: %s", *p); while (isdigit((unsigned char)**p)) v = 10 * v + *(*p)++ - '0'; return v; }
static void sp(const char **p) { while (**p == ' ') (*p)++; }
static int word_at(const char **p, char *b, int w) { int n = 0; while (**p && **p != ' ' && **p != ',' && **p != '\'') { if (n + 1 >= w) sym_limit_exceeded(); b[n++] = *(*p)++; } b[n] = 0; return n; }
static void ltext(char *b, gram *g, const char **tn, const char **nn, int r, int dot) { sprintf(b, "%s ::=", nn[g->r[r].lhs]); for (int i = 0; i <= g->r[r].len; i++) { if (i == dot) strcat(b, " *"); if (i == g->r[r].len) break; int x = g->r[r].rhs[i]; strcat(b, " "); strcat(b, ISN(x) ? nn[x - 1000] : tn[x]); } }
static int lr_rno[MAXR], lr_rep[MAXS], lr_of[MAXS];
typedef struct { int t, kind, v, seen; } ldrop; /* 1 shift dropped, 2 reduction dropped, 3 reduction in conflict */
static int ldrops(gram *g, lr *m, int si, int t, ldrop *d) {
  lrstate *s = &m->s[si]; int red[MAXI], live[MAXI], nr = 0, n = 0;
  for (int i = 0; i < s->n; i++) { lritem it = s->it[i]; if (it.rule && it.dot == g->r[it.rule].len && (it.la >> t & 1)) red[nr++] = it.rule; }
  for (int i = 0; i < nr; i++) for (int j = i + 1; j < nr; j++) if (red[j] < red[i]) { int x = red[i]; red[i] = red[j]; red[j] = x; }
  int sh = s->gt[t] >= 0; for (int i = 0; i < nr; i++) live[i] = 1;
  for (int i = 0; i < nr && sh; i++) { int rp = g->r[red[i]].prec, tp = g->tprec[t];
    if (sh == 2) { live[i] = 0; d[n++] = (ldrop){t, 2, red[i], 0}; continue; }
    if (tp <= 0 || rp <= 0) { live[i] = 0; d[n++] = (ldrop){t, 3, red[i], 0}; } else if (tp > rp || (tp == rp && g->tassoc[t] == A_RIGHT)) { live[i] = 0; d[n++] = (ldrop){t, 2, red[i], 0}; }
    else if (tp < rp || g->tassoc[t] == A_LEFT) { sh = 0; d[n++] = (ldrop){t, 1, s->gt[t], 0}; } else { sh = 2; live[i] = 0; d[n++] = (ldrop){t, 2, red[i], 0}; } }
  for (int i = 0; i < nr; i++) for (int j = i + 1; j < nr; j++) if (live[i] && live[j]) { int p = g->r[red[i]].prec, q = g->r[red[j]].prec;
    if (p <= 0 || q <= 0 || p == q) { live[j] = 0; d[n++] = (ldrop){t, 3, red[j], 0}; } else if (p > q) { live[j] = 0; d[n++] = (ldrop){t, 2, red[j], 0}; } else { live[i] = 0; d[n++] = (ldrop){t, 2, red[i], 0}; } }
  return n;
}
static void lrep_rules(gram *g, ltab *y, const char **tn, const char **nn, const char *code) { static char b[300]; char used[MAXR] = {0}; for (int r = 1; r < g->nr; r++) { ltext(b, g, tn, nn, r, -1); int k; for (k = 0; k < y->nrule; k++) if (!used[k] && !strcmp(y->rule[k], b) && (k < y->nra) == (code[r] != 0)) break; if (k == y->nrule) failf("rule '%s' is missing", b); used[k] = 1; lr_rno[r] = k; } }
/* marks: explicit [X] of each rule, by token; from: the token a rule takes its precedence from; pflag: -p was given */
static void lrep_check(gram *g, lr *m, ltab *y, const char **tn, const char **nn, const char *code, const int *from, int pflag) {
  const char *f = fdata("g.out"); static lines l; static char w[600], w2[100]; if (!f) failf("no g.out"); lrep_rules(g, y, tn, nn, code); l.p = f; for (int i = 0; i < MAXS; i++) lr_rep[i] = lr_of[i] = -1;
  int inv[MAXR]; for (int r = 1; r < g->nr; r++) inv[lr_rno[r]] = r;
  /* first pass: which state is which */
  int ns = 0; while (line_next(&l) && l.b[0] != '-') { const char *p = l.b; if (!starts(&p, "State ")) continue; int q = num_at(&p); if (strcmp(p, ":") || q != ns) failf("g.out: '%s', state %d expected", l.b, ns); if (ns >= MAXS) sym_limit_exceeded(); ns++; int cand[MAXS], k = 0; for (int i = 0; i < m->n; i++) cand[i] = lr_rep[i] < 0;
    while (line_next(&l) && l.n) { p = l.b; sp(&p); int no = -1; if (*p == '(') { p++; no = num_at(&p); if (!starts(&p, ") ")) failf("g.out: %s", l.b); if (no >= y->nrule) failf("g.out: %s: no such rule", l.b); } else if (l.n < 10) failf("g.out: %s", l.b); k++; int hit = 0;
      for (int i = 0; i < m->n; i++) if (cand[i]) { lrstate *S = &m->s[i]; int in = 0; for (int j = 0; j < S->n && !in; j++) { int r = S->it[j].rule, d = S->it[j].dot; if (!r) continue; if ((d == g->r[r].len) != (no >= 0) || (no >= 0 && lr_rno[r] != no)) continue; ltext(w, g, tn, nn, r, d); if (!strcmp(w, p)) in = 1; } if (!in) cand[i] = 0; else hit = 1; }
      if (!hit) failf("g.out: state %d: no state of the grammar has this item and those before it: %s", q, l.b); }
    int s = -1; for (int i = 0; i < m->n; i++) if (cand[i]) { int c = 0; for (int j = 0; j < m->s[i].n; j++) c += m->s[i].it[j].rule != 0; if (c == k) s = i; }
    if (s < 0) failf("g.out: state %d lists an incomplete set of items", q); lr_rep[s] = q; lr_of[q] = s; }
  if (ns != y->nstate) failf("g.out lists %d states, the parser has %d", ns, y->nstate); if (lr_of[0] != 0) failf("g.out: state 0 is not the initial state");
  for (int i = 0; i < m->n; i++) if (lr_rep[i] < 0) { int r = 0, ok = 1; if (m->s[i].n == 1 && m->s[i].it[0].rule == 0) continue; for (int t = 0; t < g->nt; t++) { lact a = lem_action(g, m, i, t); if (a.kind == 1 || a.kind == 4) ok = 0; if (a.kind == 2) { if (r && r != a.v) ok = 0; r = a.v; } } if (!ok || !r) failf("g.out lacks a state"); }
  /* second pass: actions */
  l.p = f; line_next(&l); for (int q = 0; q < ns; q++) { int s = lr_of[q]; lrstate *S = &m->s[s]; while (line_next(&l) && l.n) ;
    static ldrop d[100]; int nd = 0; for (int t = 0; t < g->nt; t++) { if (nd > 80) sym_limit_exceeded(); nd += ldrops(g, m, s, t, d + nd); }
    int ex[MAXT], gs[MAXN], dflt = -1; for (int i = 0; i < MAXT; i++) ex[i] = -1; for (int i = 0; i < MAXN; i++) gs[i] = -1;
    while (line_next(&l) && l.n) { const char *p = l.b; sp(&p); word_at(&p, w, 60); int x = -1, isd = !strcmp(w, "{default}"); for (int t = 0; t < g->nt; t++) if (!strcmp(w, tn[t])) x = t; for (int t = 0; t < g->nn; t++) if (!strcmp(w, nn[t])) x = NT(t); if (x < 0 && !isd) failf("g.out: state %d: %s", q, l.b); sp(&p);
      int v = -1, no, r = 0, isred = 0;
      if (starts(&p, "shift-reduce ")) { no = num_at(&p); if (no >= y->nrule) failf("g.out: state %d: %s", q, l.b); v = (ISN(x) ? y->minred : y->minsr) + no; r = inv[no]; }  /* after a reduction the shift is implied */
      else if (starts(&p, "shift ")) { sp(&p); v = num_at(&p); }
      else if (starts(&p, "reduce ")) { sp(&p); no = num_at(&p); if (no >= y->nrule) failf("g.out: state %d: %s", q, l.b); v = y->minred + no; r = inv[no]; isred = 1; }
      else if (starts(&p, "accept")) v = y->acc; else if (starts(&p, "error")) v = y->err; else failf("g.out: state %d: %s", q, l.b);
      sp(&p); int kind = 0; const char *z = strstr(p, "** Parsing conflict **"); if (z) kind = 3; if ((z = strstr(p, "-- dropped by precedence"))) kind = isred ? 2 : 1;
      if (kind) { if (r) { sprintf(w2, "(%s) ", nn[g->r[r].lhs]); if (!starts(&p, w2)) failf("g.out: state %d: %s", q, l.b); } int i; for (i = 0; i < nd; i++) if (!d[i].seen && d[i].t == x && d[i].kind == kind && (kind == 1 ? lr_rep[d[i].v] < 0 || lr_rep[d[i].v] == v : r == d[i].v)) break; if (i == nd || isd) failf("g.out: state %d: this did not happen: %s", q, l.b); d[i].seen = 1; continue; }
      if (r) { ltext(w2, g, tn, nn, r, -1); if (!starts(&p, w2)) failf("g.out: state %d: rule %d is '%s': %s", q, lr_rno[r], w2, l.b); }
      sp(&p); if (*p) { if (starts(&p, "/* because ")) { int k = (int)strlen(w); if (strncmp(p, w, k) || strncmp(p + k, "==", 2)) failf("g.out: state %d: %s", q, l.b); } else failf("g.out: state %d: %s", q, l.b); }
      int *to = isd ? &dflt : ISN(x) ? &gs[x - 1000] : &ex[x]; if (*to >= 0) failf("g.out: state %d has two actions on %s", q, w); *to = v; }
    for (int t = 0; t < g->nt; t++) { int df, v = lt_shift(y, q, lt_sym(y, tn[t]), &df), e = ex[t] >= 0 ? ex[t] : dflt >= 0 ? dflt : y->err; if (v != e) failf("g.out: state %d on %s: the report says action %d, the tables %d", q, tn[t], e, v); }
    for (int i = 0; i < g->nn; i++) { if (S->gn[i] < 0) { if (gs[i] >= 0) failf("g.out: state %d: a goto on %s", q, nn[i]); continue; } if (gs[i] < 0) failf("g.out: state %d: no goto on %s", q, nn[i]); int v = lt_goto(y, q, lt_sym(y, nn[i])); if (v != gs[i]) failf("g.out: state %d on %s: the report says action %d, the tables %d", q, nn[i], gs[i], v); }
    for (int i = 0; i < nd; i++) if (!d[i].seen && (pflag || d[i].kind == 3)) failf("g.out: state %d: not reported: %s on %s", q, d[i].kind == 3 ? "a conflict" : "an action dropped by precedence", tn[d[i].t]); }
  /* symbols, rules */
  if (!line_next(&l) || l.b[0] != '-' || !line_next(&l) || strcmp(l.b, "Symbols:")) failf("g.out: no symbols: %s", l.b); line_next(&l); line_next(&l); int k = 0;
  while (line_next(&l) && l.b[0] != '-') { const char *p = l.b; sp(&p); if (num_at(&p) != k || !starts(&p, ": ")) failf("g.out: symbol %d: %s", k, l.b); int n = word_at(&p, w, 60), x = -1; if (n && w[n - 1] == ':') w[--n] = 0; if (k >= y->nsym || strcmp(w, y->sym[k])) failf("g.out: symbol %d is %s in the parser: %s", k, y->sym[k], l.b); for (int t = 0; t < g->nt; t++) if (!strcmp(w, tn[t])) x = t; for (int t = 0; t < g->nn; t++) if (!strcmp(w, nn[t])) x = NT(t);
    if (x >= 0 && ISN(x)) { lset fs = 0; int lam = starts(&p, " <lambda>"); while (*p == ' ' && p[1] != '(') { p++; word_at(&p, w, 60); int t; for (t = 0; t < g->nt && strcmp(w, tn[t]); t++) ; if (t == g->nt) failf("g.out: symbol %d: %s", k, l.b); fs |= L1(t); } if (lam != m->nullable[x - 1000] || fs != m->first[x - 1000]) failf("g.out: the first set is wrong: %s", l.b); if (*p) failf("g.out: symbol %d: %s", k, l.b); }
    else if (x >= 0) { if (g->tprec[x] > 0) { sprintf(w, " (precedence=%d)", g->tprec[x]); if (strcmp(p, w)) failf("g.out: symbol %d has precedence %d: %s", k, g->tprec[x], l.b); } else if (*p && from) failf("g.out: symbol %d has no precedence: %s", k, l.b); }
    k++; }
  if (k != y->nsym) failf("g.out lists %d symbols of %d", k, y->nsym); while (line_next(&l) && l.b[0] != '-') ; line_next(&l); if (strcmp(l.b, "Rules:")) failf("g.out: no rules: %s", l.b); char seen[MAXR] = {0}; k = 0;
  while (line_next(&l)) { const char *p = l.b; sp(&p); int no = num_at(&p); if (no >= y->nrule || seen[no]++ || !starts(&p, ": ") || !starts(&p, y->rule[no]) || !starts(&p, ".")) failf("g.out: rule: %s", l.b); k++; int r = inv[no]; if (from) { w[0] = 0; if (from[r]) sprintf(w, " [%s precedence=%d]", tn[from[r]], g->tprec[from[r]] > 0 ? g->tprec[from[r]] : -1); if (strcmp(p, w) && (*p || g->tprec[from[r]] > 0)) failf("g.out: the precedence is '%s' here: %s", w, l.b); } }
  if (k != y->nrule) failf("g.out lists %d rules of %d", k, y->nrule);
}
static void lhead_check(ltab *y, const char *prefix) { const char *f = fdata("g.h"); static lines l; if (!f) failf("no g.h"); l.p = f; static char w[200]; sprintf(w, "enum %sLemonEnum {", prefix); if (!line_next(&l) || strcmp(l.b, w)) failf("g.h: %s", l.b);
  for (int i = 1; i <= y->ntoken; i++) { if (!line_next(&l)) failf("g.h: token %d is missing", i); if (i < y->ntoken) sprintf(w, " %s%s = %3d,", prefix, y->sym[i], i); else sprintf(w, " %sLEMON_LAST_TOKEN = %3d", prefix, i); if (strcmp(l.b, w)) failf("g.h: '%s', '%s' is required", l.b, w); }
  if (!line_next(&l) || strcmp(l.b, "};")) failf("g.h: %s", l.b); if (line_next(&l)) failf("g.h: %s", l.b); }
/* the next row "(a,b,...)" of an INSERT, as text; 0 at its end */
static const char *sqlp; static int row(char *b, int w) { while (*sqlp == ' ' || *sqlp == '\n' || *sqlp == ',') sqlp++; if (*sqlp != '(') return 0; sqlp++; int n = 0; while (*sqlp && *sqlp != ')') { if (n + 1 >= w) sym_limit_exceeded(); b[n++] = *sqlp++; } b[n] = 0; if (*sqlp) sqlp++; return 1; }
static int table(const char *ins) { const char *f = fdata("g.sql"), *p = f ? strstr(f, ins) : 0; if (!f) failf("no g.sql"); if (!p) return 0; sqlp = p + strlen(ins); return 1; }
static void sql_check(gram *g, ltab *y, const char **tn, const char **nn, const int *marks) {
  static char b[200], w[200]; int k = 1; if (!table("INSERT INTO symbol(id,name,isTerminal,fallback) VALUES\n")) failf("g.sql: no symbols"); for (; row(b, 200); k++) { if (k >= y->nsym) failf("g.sql: symbol %d: (%s)", k, b); sprintf(w, "%d,'%s',%s,NULL", k, y->sym[k], k < y->ntoken ? "TRUE" : "FALSE"); if (strcmp(w, b)) failf("g.sql: (%s), (%s) is required", b, w); } if (k != y->nsym) failf("g.sql: %d symbols of %d", k, y->nsym);
  int np = 0, got = 0; for (int t = 1; t < g->nt; t++) np += g->tprec[t] > 0; char pt[MAXT] = {0}; if (table("INSERT INTO precedence(id,prec,assoc) VALUES\n")) for (; row(b, 200); got++) { int t; for (t = 1; t < g->nt; t++) if (g->tprec[t] > 0) { sprintf(w, "%d,%d,'%c'", lt_sym(y, tn[t]), g->tprec[t], "?LRNP"[g->tassoc[t]]); if (!strcmp(w, b) && !pt[t]++) break; } if (t == g->nt) failf("g.sql: no such precedence: (%s)", b); } if (got != np) failf("g.sql: %d precedences of %d", got, np);
  if (!table("INSERT INTO rule(ruleid,lhs,prec_id) VALUES\n")) failf("g.sql: no rules"); for (k = 1; row(b, 200); k++) { if (k >= g->nr) failf("g.sql: rule (%s)", b); sprintf(w, "%d,%d,", k - 1, lt_sym(y, nn[g->r[k].lhs])); if (marks && marks[k]) sprintf(w + strlen(w), "%d", lt_sym(y, tn[marks[k]])); else strcat(w, "NULL"); if (strcmp(b, w)) failf("g.sql: rule (%s), (%s) is required", b, w); } if (k != g->nr) failf("g.sql: %d rules", k - 1);
  int r = 1, i = 0; while (r < g->nr && !g->r[r].len) r++; if (table("INSERT INTO rulerhs(ruleid,pos,sym) VALUES\n")) while (row(b, 200)) { if (r >= g->nr) failf("g.sql: (%s) is too much", b); int x = g->r[r].rhs[i]; sprintf(w, "%d,%d,%d", r - 1, i, lt_sym(y, ISN(x) ? nn[x - 1000] : tn[x])); if (strcmp(b, w)) failf("g.sql: (%s), (%s) is required", b, w); if (++i == g->r[r].len) { i = 0; r++; while (r < g->nr && !g->r[r].len) r++; } } if (r != g->nr) failf("g.sql: the right-hand side of rule %d is incomplete", r - 1);
  sprintf(w, "UPDATE directives SET start_symbol=%d;\n", lt_sym(y, nn[g->start])); if (!fhas("g.sql", w)) failf("g.sql: the start symbol is wrong"); if (!fhas("g.sql", "COMMIT;\n")) failf("g.sql is incomplete");
}
#endif
